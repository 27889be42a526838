"""C06: no control character of the input reaches the terminal."""
import itertools

from .. import corpus, dump, plans, ref, sut, term
from ..dump import Bad
from ..ref import Opts, CLASSES

ID = 'C06'
TECHNIQUE = 'exhaustive enumeration of bounded inputs x modes x debug levels on the real application, output scanner'
LEVEL_NOTE = ('all byte pairs, all code points, all pairs of bytes after ESC and in CSI sequences, all escape syntax words <= 3, all C1 and byte order marks in UTF-8, all unit words <= 2, '
              'in all modes, focus/ignore groups, color markers and debug levels 0..4; error paths of the whole '
              'application')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, escape words <= 4, byte words <= 3 at every debug level'}
STATE = '(options, kind and length of the last lexical unit); a transition appends a lexical unit'
ASSUMPTIONS = ['the terminal acts upon C0 and C1 control characters only']

MODES = [Opts(binary=True, columns=5), Opts(binary=True, columns=16, decode=True), Opts(), Opts(marker=1),
         Opts(marker=2), Opts(marker=2, no_separators=True, no_line_numbers=True)]
FI = [((), ()), (CLASSES, ()), ((), CLASSES), (CLASSES[:3], CLASSES[3:]), (CLASSES[3:], CLASSES[:3])]

# every code point of Latin-1 and the neighbourhood, every encoded form of C0/C1 (overlong ones too)
C1 = [''.join(chr(c) for c in range(0x80, 0x100)).encode(),
      b' '.join(chr(c).encode() for c in range(0x78, 0x110)),
      b'\xc0\x9b \xc1\x9b \xe0\x80\x9b \xe0\x82\x9b \xf0\x80\x80\x9b \xf0\x80\x82\x9b \xc0\x8a \xc2\x85',
      ''.join(map(chr, (0x2028, 0x2029, 0xfeff, 0xfffe, 0xffff, 0x1ffff, 0x10ffff, 0xe000))).encode()]


def holds(run):
    if run.screen.unsafe:
        raise Bad(f'control characters {run.screen.unsafe[:5]!r} in the output')
    if run.res.err:
        bad = term.UNSAFE_RE.findall(term.SGR_RE.sub('', run.res.err))
        if bad:
            raise Bad(f'control characters {bad[:5]!r} in standard error')
    if not run.res.out and run.data:
        raise Bad('no output')


def jobs(tier):
    q = tier == 'quick'
    out = []
    pk = plans.PACK_BUFFER
    for o in (Opts(), Opts(binary=True, columns=16, decode=True), Opts(marker=2)):
        out += plans.wide(o)
    for o in (Opts(debug=4, binary=True, decode=True, columns=16), Opts(debug=4, marker=1)):
        out += [(oo.replace(buffer=1000), s) for oo, s in plans.wide(o) if s[0] == 'codepoints' and (not q or s[1] < 0x10000)]
    for o in MODES:
        for f, g in FI:
            for cm in (False, True):
                oo = o.replace(focus=f, ignore=g, color_markers=cm)
                out.append((oo, ('docs', 0, len(plans.DOCS))))
                out.append((oo, ('c1',)))
                for d in (1, 2, 3, 4):
                    out.append((oo.replace(debug=d, buffer=24 if d > 2 else None), ('docs', 0, len(plans.DOCS))))
                    out.append((oo.replace(debug=d), ('c1',)))
        for a in range(0, 256, 32):
            out.append((o.replace(buffer=pk), ('pairs', a, a + 32)))
        out += [(o.replace(buffer=pk), s) for s in plans.esc_words(3, 3)]
        for d in range(5):
            oo = o.replace(debug=d)
            out += [(oo, s) for s in plans.upto('UNITS', 1)]
            out += [(oo, s) for s in plans.upto('BYTES', 2 if q else 3)]
            out += [(oo.replace(buffer=40), ('esc', 2, 0, 19 * 19, b'a'))]
            out.append((oo.replace(buffer=16), ('packed', 'UNITS', 2, 0, len(corpus.UNITS) ** 2, b'')))
            for a in range(0, 256, 64):
                out.append((oo.replace(buffer=64), ('alone', a, a + 64)))
        if not q:
            out += [(o.replace(buffer=pk), s) for s in plans.esc_words(4, 32)]
    out.append((None, ('app',)))
    return out


APP = [[], ['-b'], ['-m2'], ['-DDDD', '-b'], ['-DDDD'], ['-D', '-m1'], ['-b', '-d', '--color-markers', '-DD']]


def app_case(argv, data):
    r = sut.run_app(argv, data)
    bad = term.UNSAFE_RE.findall(term.SGR_RE.sub('', r.out)) + term.UNSAFE_RE.findall(term.SGR_RE.sub('', r.err))
    if r.error:
        return r.error
    if bad:
        return f'kolombos {argv} < {data!r}: control characters {bad[:5]!r}'
    return None


def run(job, acc):
    o, spec = job
    if spec[0] == 'app':
        for argv, d in itertools.product(APP, plans.DOCS + C1):
            m = app_case(argv, d)
            acc.traces += 1
            acc.state(('app', tuple(argv)))
            if m:
                acc.fail({'argv': argv, 'data': d.hex()}, m)
        for argv in (['nonexistent\x1b[31m\x07'], ['-D', 'no\x1b[2J'], ['/'], ['-DDDD', '/'], ['-b', 'x\x9b1m']):
            m = app_case(argv, b'')
            acc.traces += 1
            if m:
                acc.fail({'argv': argv, 'data': ''}, m)
        return
    if spec[0] == 'c1':
        inputs = C1
    elif spec[0] == 'alone':
        inputs = [bytes([b]) for b in range(spec[1], spec[2])]
    else:
        inputs = plans.generate(spec)
    dump.explore(acc, holds, o, inputs)


def check(case):
    if 'argv' in case:
        return app_case(case['argv'], bytes.fromhex(case['data']))
    return dump.decide(holds, case)
