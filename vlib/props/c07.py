"""C07: styles never leak between prefixes, columns, rows and bytes."""
import itertools

from .. import corpus, dump, plans, ref, term
from ..dump import Bad
from ..ref import Opts, CLASSES
from ..term import BG, CROSS, DEFAULT, INV, OVER, UL

ID = 'C07'
TECHNIQUE = ('exhaustive enumeration of bounded inputs x geometries x focus/ignore on the real dumper, terminal model '
             'and differential oracles (hex against text column, width against width, line against line)')
LEVEL_NOTE = ('all unit words <= 2 (packed: 3), byte words <= 2, runs, documents; widths 1..16; focus/ignore groups, '
              'color markers; every line break position of all unit pairs; '
              'all pairs of 32 SGR parameters in one and in two sequences; all code points, '
              'all pairs of bytes after ESC and in CSI sequences, sequences of up to 300 parameters')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, unit words <= 3 unpacked, byte words <= 3, all widths 1..17'}
STATE = '(options, kind and length of the last lexical unit, fill of the row); a transition appends a lexical unit'
ASSUMPTIONS = ['the terminal implements SGR as ECMA-48 and xterm describe it']


def row_end(i, row):
    e = row.end
    if row.eol and (e[BG] or e[INV] or e[UL] or e[CROSS] or e[OVER]):
        raise Bad(f'row {i} ends with {term.show(e)}')


def prefix(i, cells, style):
    t = ''.join(c for c, _ in cells)
    z = t.find('0x')
    for j, (c, s) in enumerate(cells):
        want = ref.BAR if c == '│' else style
        dim = 0 <= z <= j < z + 2
        if s != want and not (dim and s == term.apply_params(style, [2])):
            raise Bad(f'prefix {t!r} of row {i}: cell {j} has style {term.show(s)}')


def holds(run):
    o = run.o
    for i, row in enumerate(run.rows):
        row_end(i, row)
    if run.screen.final != DEFAULT:
        raise Bad(f'the output ends with {term.show(run.screen.final)}')
    if not o.binary:
        for i, row in enumerate(run.rows):
            if not o.no_line_numbers:
                prefix(i, dump.text_prefix(row)[0], ref.LINE_NUM)
        return
    lines, total, cols = dump.bin_lines(run, o.columns or None)
    if total is not None:
        prefix('total', total.cells, ref.TOTAL)
    for i, ln in enumerate(lines):
        prefix(i, ln.prefix, ref.LINE_NUM)
        for part, want in ((ln.gap, DEFAULT), (ln.sep, DEFAULT if o.no_offsets else ref.BAR)):
            for c, s in part:
                if s != want:
                    raise Bad(f'row {i}: cell {c!r} between hex and text columns has style {term.show(s)}')
        if len(ln.chars) != len(ln.hexes):
            raise Bad(f'row {i}: {len(ln.hexes)} bytes, {len(ln.chars)} characters')
        for k, (c, s) in enumerate(ln.chars):
            h = ln.hex_cells[3 * k:3 * k + 3]
            if any(x[1] != s for x in h):
                raise Bad(f'row {i} byte {k} ({ln.hexes[k]}): {term.show(s)} in the text column, '
                          f'{[term.show(x[1]) for x in h]} in the hex column')


def stream(run):
    lines, _, _ = dump.bin_lines(run, run.o.columns)
    return [c for ln in lines for c in ln.chars]


def by_width(o, data, ws):
    """cells do not depend on the width"""
    want = stream(dump.Run(o.replace(columns=max(1, len(data))), data))
    for w in ws:
        r = dump.Run(o.replace(columns=w), data)
        holds(r)
        got = stream(r)
        m = dump.diff_cells(want, got)
        if m:
            raise Bad(f'width {w} against one row: {m}')


def content(o, data):
    return [(r.cells if o.no_line_numbers else dump.text_prefix(r)[1]) for r in dump.Run(o, data).rows]


def by_line(o, parts, cache=None):
    """lines do not depend on other lines"""
    want = []
    for p in parts:
        c = cache.get(p) if cache is not None else None
        if c is None:
            c = content(o, p)
            if cache is not None:
                cache[p] = c
        want += c
    data = b''.join(parts)
    got = content(o, data)
    if len(got) != len(want):
        raise Bad(f'{len(got)} rows, {len(want)} line by line')
    for i, (a, b) in enumerate(zip(want, got)):
        m = dump.diff_cells(a, b)
        if m:
            raise Bad(f'line {i} alone against inside: {m}')


FI = [((), ()), (CLASSES, ()), ((), CLASSES), (CLASSES[:3], CLASSES[3:]), (CLASSES[3:], CLASSES[:3]),
      ((ref.ESC, ref.UTF8), (ref.PRINTABLE, ref.SPACE))]


# everything an SGR sequence can do
EFFECTS = [b'', b'0', b'1', b'2', b'3', b'4', b'5', b'6', b'7', b'8', b'9', b'21', b'22', b'53', b'55', b'31', b'94', b'42', b'103',
           b'38;5;9', b'48;5;200', b'38;2;1;2;3', b'48;2;9;8;7', b'39', b'49', b'38', b'48;5', b'4:3', b'58;5;1', b'73', b'51', b'20']


def sgr_docs(a, b):
    for x in EFFECTS[a:b]:
        yield b''.join(b'a\x1b[%s;%smb\n' % (x, y) for y in EFFECTS)
        yield b''.join(b'\x1b[%sm\x1b[%sm' % (x, y) for y in EFFECTS)
        yield b'a\x1b[%smb\xc3\xa9\x00\xff\n\x1b[%s;1mc' % (x, x)


def styled(tier):
    """option sets that matter to styles"""
    for f, g in FI:
        for cm in (False, True):
            yield dict(focus=f, ignore=g, color_markers=cm)


def jobs(tier):
    q = tier == 'quick'
    out = []
    B, T = Opts(binary=True), Opts()
    for kw in styled(tier):
        b = B.replace(**kw)
        for dec in (False, True):
            out.append(('width', b.replace(decode=dec), ('words', 'UNITS', 1, 0, len(corpus.UNITS)), (1, 2, 3, 5)))
        out += [('width', b.replace(decode=True), s, (1, 2, 3) if q else tuple(range(1, 10)))
                for s in plans.cut('UNITS', 2, 2)]
        out.append(('width', b, ('docs', 0, len(plans.DOCS)), (1, 3, 4, 16)))
        out.append(('holds', b.replace(columns=3, no_offsets=True), ('docs', 0, len(plans.DOCS))))
        out.append(('holds', b.replace(columns=7, decimal=True), ('docs', 0, len(plans.DOCS))))
        for m in (0, 1, 2):
            t = T.replace(marker=m, **kw)
            out.append(('lines', t, 1))
            out.append(('holds', t, ('docs', 0, len(plans.DOCS))))
            out += [('holds', t.replace(no_separators=True, buffer=plans.PACK_BUFFER),
                     ('packed', 'UNITS', 2, 0, len(corpus.UNITS) ** 2, b'\n'))]
    for a in range(0, len(EFFECTS), 4):
        for kw in styled(tier):
            for m in (0, 1, 2):
                out.append(('sgr', T.replace(marker=m, **kw), a, a + 4))
            out.append(('sgr', B.replace(columns=5, **kw), a, a + 4))
            out.append(('sgr', B.replace(columns=16, decode=True, **kw), a, a + 4))
    for i, kw in enumerate(list(styled(tier))[:2 if q else None]):
        for m in (i + 1,) if q else (1, 2):
            for a in range(0, len(corpus.UNITS), 2):
                out.append(('lines2', T.replace(marker=m, **kw), a, a + 2))
    for w in (2, 5):
        out += [('holds', B.replace(columns=w, decode=True, buffer=plans.PACK_BUFFER, color_markers=True), s)
                for s in plans.cut('UNITS', 3, 16, b'')]
    out += [('holds', T.replace(marker=2, color_markers=True, buffer=plans.PACK_BUFFER), s)
            for s in plans.cut('UNITS', 3, 16, b'\n')]
    for w in (1, 3):
        out += [('holds', B.replace(columns=w), s) for s in plans.cut('BYTES', 3, 4)]
    for o in [B.replace(columns=5, decode=True, color_markers=True), T.replace(marker=2)] + \
            ([] if q else [B.replace(columns=16), T.replace(marker=1, color_markers=True)]):
        out += [('holds', *x) for x in (*plans.wide(o), *plans.long_sequences(o, 300))]
    if not q:
        for w in range(1, 18):
            out += [('holds', B.replace(columns=w, color_markers=w % 2 == 0), s) for s in plans.cut('UNITS', 2, 2)]
        for w in (2, 5):
            out += [('holds', B.replace(columns=w, decode=True), s) for s in plans.cut('UNITS', 3, 64)]
        for m in (1, 2):
            out += [('holds', T.replace(marker=m), s) for s in plans.cut('UNITS', 3, 64)]
    return out


def guarded(acc, case, fn, *a):
    acc.traces += 1
    try:
        fn(*a)
    except Bad as e:
        acc.fail(case, f'{dump.describe_case(case)}: {e}')


def run(job, acc):
    kind, o = job[:2]
    if kind == 'holds':
        dump.explore(acc, holds, o, plans.generate(job[2]))
    elif kind == 'sgr':
        dump.explore(acc, holds, o.replace(buffer=64), sgr_docs(*job[2:]))
        if not o.binary:
            cache = {}
            for x in EFFECTS[job[2]:job[3]]:
                for y in (b'53', b'2;9', b'3;31;42', b''):
                    parts = [b'a\x1b[%sm\n' % x, b'b\xff\x00\n', b'c\x1b[%sm \n' % y, b'd']
                    guarded(acc, dump.case_of(o, b''.join(parts), parts=[p.hex() for p in parts]),
                            by_line, o, parts, cache)
                    if acc.full:
                        return
    elif kind == 'width':
        for d in plans.generate(job[2]):
            if d:
                guarded(acc, dump.case_of(o, d, widths=list(job[3])), by_width, o, d, job[3])
                dump.note_model(acc, o, ref.tokenize(d), 1)
                acc.outcome(d)
            if acc.full:
                return
    else:
        cache = {}
        us = corpus.UNITS if kind == 'lines' else corpus.UNITS[job[2]:job[3]]
        for u, v in itertools.product(us, corpus.UNITS):
            tails = [(b'',)] if kind == 'lines' else [(x,) for x in corpus.UNITS_SMALL]
            for (x,) in tails:
                parts = [u + b'\n', v + x + b'\n', b'a']
                guarded(acc, dump.case_of(o, b''.join(parts), parts=[p.hex() for p in parts]),
                        by_line, o, parts, cache)
                acc.state((kind, parts[0]))
                acc.transition(kind, *parts)
                if acc.full:
                    return
        acc.outcome((kind, len(cache)))
        acc.sample(dump.describe_case(dump.case_of(o, b''.join(parts))))


def check(case):
    o, d = dump.opts_of(case), bytes.fromhex(case['data'])
    try:
        if 'widths' in case:
            by_width(o, d, case['widths'])
        elif 'parts' in case:
            by_line(o, [bytes.fromhex(p) for p in case['parts']], {})
        else:
            return dump.decide(holds, case)
    except Bad as e:
        return f'{dump.describe_case(case)}: {e}'
