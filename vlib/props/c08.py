"""C08: focusing or ignoring a class concerns the bytes of this class only."""
import itertools

from .. import corpus, dump, plans, ref, sut, term
from ..dump import Bad
from ..ref import Opts, CLASSES

ID = 'C08'
TECHNIQUE = 'exhaustive enumeration of all 729 focus/ignore configurations on the real dumper, differential oracle'
LEVEL_NOTE = ('all 3^6 combinations x mixed documents in 6 modes; all single-class settings x all unit '
              'words <= 2, byte words <= 2, 12000 code points, all pairs of bytes after ESC and in CSI sequences, '
              'sequences of up to 130 parameters')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, all pairs of classes and all 729 combinations x all unit words <= 2'}
STATE = ('(combination, mode, kind and length of the last lexical unit); a transition appends a lexical unit or '
         'switches one class')
ASSUMPTIONS = ['which class a byte belongs to is the subject of C05']

COMBOS = list(itertools.product((0, 1, 2), repeat=6))        # per class: normal, focused, ignored
ONE_TWO = [c for c in COMBOS if sum(x != 0 for x in c) in (1, 2)]
MODES = [Opts(binary=True, columns=4), Opts(binary=True, columns=7, decode=True), Opts(), Opts(marker=1),
         Opts(marker=2), Opts(marker=2, color_markers=True), Opts(marker=1, no_separators=True, no_line_numbers=True),
         Opts(binary=True, columns=5, color_markers=True, no_offsets=True)]
MIX = (b'a \t\x00\x01\x1b\x1b[1;31mb\x1b[m\xc3\xa9\xff\x1bM\x7f#\x0b\x0c\r \n'
       b'\xe2\x82\xac\x80\x1b[2J\x1b(B\x1b7\x1bc\x08 ~\x1b[38;5;208;9mz\n\n\x1f\xf0\x9f\x98\x80end')


def pick(combo, what):
    return frozenset(c for c, x in zip(CLASSES, combo) if x == what)


BASE = {}


def base(o, data):
    """[(token, cells)] per row segment of the plain run: what every byte looks like when nothing is set"""
    key = (tuple(o.argv()), data)
    r = BASE.get(key)
    if r is None:
        if len(BASE) > 4000:
            BASE.clear()
        r = BASE[key] = dump.Run(o, data)
    return r


def split_bin(run, o):
    """per row: prefix cells, hex cells, middle, chars"""
    lines, total, cols = dump.bin_lines(run, o.columns)
    return lines, total


def check_bin(o, combo, data):
    b = base(o, data)
    f, g = pick(combo, 1), pick(combo, 2)
    r = dump.Run(o.replace(focus=f, ignore=g), data)
    bl, bt = split_bin(b, o)
    rl, rt = split_bin(r, o)
    if (bt and bt.cells) != (rt and rt.cells):
        raise Bad('total row differs')
    if len(bl) != len(rl):
        raise Bad(f'{len(rl)} rows instead of {len(bl)}')
    owner = [t for t in ref.tokenize(data) for _ in t.raw]
    first = [k == 0 for t in ref.tokenize(data) for k in range(len(t.raw))]
    pos = 0
    for i, (x, y) in enumerate(zip(bl, rl)):
        if x.prefix != y.prefix or x.hexes != y.hexes or x.gap != y.gap or x.sep != y.sep:
            raise Bad(f'row {i}: more than the data cells differs: {x.row.text!r} and {y.row.text!r}')
        if len(x.chars) != len(y.chars):
            raise Bad(f'row {i}: {len(y.chars)} characters instead of {len(x.chars)}')
        for (a, b_) in zip(x.chars, y.chars):
            t = owner[pos]
            one(t, a, b_, f, g, first[pos], o, f'byte {pos} ({t.kind} {t.raw!r})')
            pos += 1


def one(t, a, b, f, g, is_marker, o, where):
    """cell a (nothing set) against cell b"""
    if t.cls in g:
        if b != ('×', ref.IGNORED):
            raise Bad(f'{where} is ignored, but shown as {b[0]!r} {term.show(b[1])}')
    elif t.cls in f:
        c = a[0]
        if c == '␣' and t.cls == ref.SPACE:
            c = '·'
        if b[0] != c:
            raise Bad(f'{where} is focused, and shown as {b[0]!r} instead of {c!r}')
        if t.cls == ref.ESC and (not is_marker or (t.kind == 'sgr' and o.color_markers)):
            want = a[1]         # details keep their style, colored markers keep their colors
        elif t.cls == ref.SPACE:
            want = ref.st(46, 30)
        elif t.cls == ref.PRINTABLE:
            want = ref.st(47, 30)
        else:
            want = term.apply_params(a[1], [7])
        if b[1] != want:
            raise Bad(f'{where} is focused, its style is {term.show(b[1])}')
    elif a != b:
        raise Bad(f'{where} is neither focused nor ignored, but changed from {a[0]!r} {term.show(a[1])} '
                  f'to {b[0]!r} {term.show(b[1])}')


def check_text(o, combo, data):
    b = base(o, data)
    f, g = pick(combo, 1), pick(combo, 2)
    r = dump.Run(o.replace(focus=f, ignore=g), data)
    if len(b.rows) != len(r.rows):
        raise Bad(f'{len(r.rows)} rows instead of {len(b.rows)}')
    toks = iter(ref.tokenize(data))
    for i, (x, y) in enumerate(zip(b.rows, r.rows)):
        if o.no_line_numbers:
            xc, yc = x.cells, y.cells
        else:
            (xp, xc), (yp, yc) = dump.text_prefix(x), dump.text_prefix(y)
            if xp != yp:
                raise Bad(f'row {i}: the line number differs')
        p = q = 0
        for t in toks:
            n = len(ref.text_cells(t, o))
            cells = xc[p:p + n]
            p += n
            if t.cls in g:
                m = len(t.raw)
                got = yc[q:q + m]
                if got != [('×', ref.IGNORED)] * m:
                    raise Bad(f'row {i}: {t.kind} {t.raw!r} is ignored, but shown as {got}')
            else:
                m = n
                got = yc[q:q + m]
                if len(got) != n:
                    raise Bad(f'row {i}: {t.kind} {t.raw!r}: {len(got)} cells instead of {n}')
                mark = 1 if t.cls == ref.ESC and cells[0][0] == ref.SEP_L else 0
                for k, (a, c) in enumerate(zip(cells, got)):
                    if t.cls in f and ((t.cls == ref.ESC and k != mark) or
                                       (t.kind == 'ctl' and k)):
                        if a != c:
                            raise Bad(f'row {i}: details of focused {t.kind} {t.raw!r} changed')
                        continue
                    one(t, a, c, f, g, k == mark or t.cls != ref.ESC, o, f'row {i}: {t.kind} {t.raw!r}')
            q += m
            if t.kind == 'lf':
                break
        if q != len(yc) or p != len(xc):
            raise Bad(f'row {i}: {len(yc)} cells instead of {q}')


def decide(o, combo, data):
    try:
        (check_bin if o.binary else check_text)(o, combo, data)
    except Bad as e:
        return str(e)
    return None


def jobs(tier):
    q = tier == 'quick'
    out = []
    for m in range(len(MODES)):
        for a, b in corpus.slices(len(COMBOS), 9):
            out.append(('all', m, a, b))
    for m in range(len(MODES)):
        for a, b in corpus.slices(len(corpus.UNITS), 6):
            out.append(('pairs', m, a, b))
        for a, b in corpus.slices(len(SINGLE), 4) if q else corpus.slices(len(ONE_TWO), 16):
            out.append(('packed', m, a, b, q))
        out.append(('bytes', m))
        for a, b in corpus.slices(len(SINGLE), 4):
            out.append(('wide', m, a, b))
    for m in (4,) if q else range(len(MODES)):
        for _, s in plans.wide(MODES[m]):
            if s[0] == 'escany':
                out += [('esc', m, (*s[:3], a, a + 16)) for a in range(s[3], s[4], 16)]
    if not q:
        for m in range(len(MODES)):
            for a, b in corpus.slices(len(COMBOS), 80):
                out.append(('full', m, a, b))
    return out


def go(acc, o, combo, data):
    acc.traces += 1
    m = decide(o, combo, data)
    if m:
        case = dump.case_of(o, data, combo=list(combo))
        case = dump.shrink(lambda c: decide(o, combo, bytes.fromhex(c['data'])), case)
        m = decide(o, combo, bytes.fromhex(case['data']))
        acc.fail(case, f'{dump.describe_case(case)} focus {sorted(pick(combo, 1))} ignore '
                       f'{sorted(pick(combo, 2))}: {m}')
    return not acc.full


ESC_AT = CLASSES.index(ref.ESC)
SINGLE = [c for c in COMBOS if sum(x != 0 for x in c) == 1]


def inputs_packed(a=0, b=1):
    yield from corpus.packs(corpus.words(corpus.UNITS, 2, 2), b'', 1200)


def run(job, acc):
    kind, m = job[:2]
    o = MODES[m]
    if kind == 'all':
        for combo in COMBOS[job[2]:job[3]]:
            for k in range(6):
                acc.transition(m, combo, k)
            for d in (MIX, plans.DOCS[15], plans.DOCS[16], plans.DOCS[12]):
                acc.state((m, combo))
                if not go(acc, o, combo, d):
                    return
            acc.outcome((m, combo))
    elif kind == 'pairs':
        for u in corpus.UNITS[job[2]:job[3]]:
            for v in corpus.UNITS:
                cls = {t.cls for t in ref.tokenize(u + v)}
                for combo in SINGLE:
                    # the set class and, if it is another one, the combination of both
                    if not cls & (pick(combo, 1) | pick(combo, 2)):
                        continue
                    acc.state((m, combo, u))
                    acc.transition(m, combo, u, v)
                    if not go(acc, o, combo, u + v):
                        return
    elif kind == 'packed':
        for combo in (SINGLE if job[4] else ONE_TWO)[job[2]:job[3]]:
            for d in inputs_packed():
                if not go(acc, o.replace(buffer=16), combo, d):
                    return
            acc.state((m, combo))
    elif kind == 'wide':
        for combo in SINGLE[job[2]:job[3]]:
            specs = [('codepoints', a, b) for a, b in ((0, 0x1000), (0x2000, 0x3000), (0xd800, 0xe000), (0xfc00, 0x10400), (0x1f400, 0x1f800))]
            if combo[ESC_AT]:
                if m in (1, 4):
                    specs += [s for _, s in plans.long_sequences(o, 130)]
            for spec in specs:
                for d in plans.generate(spec):
                    if len(d) < 5000 and not go(acc, o.replace(columns=64) if o.binary else o, combo, d):
                        return
    elif kind == 'esc':
        for combo in SINGLE:
            if combo[ESC_AT]:
                for d in plans.generate(job[2]):
                    if not go(acc, o.replace(columns=64) if o.binary else o, combo, d):
                        return
    elif kind == 'bytes':
        for combo in SINGLE:
            for d in corpus.words(corpus.BYTES, 2, 1):
                if not go(acc, o, combo, d):
                    return
    else:
        for combo in COMBOS[job[2]:job[3]]:
            for d in inputs_packed():
                if not go(acc, o.replace(buffer=16), combo, d):
                    return
            acc.state((m, combo))
    acc.sample({'mode': o.argv(), 'job': list(job)})


def check(case):
    o, d = dump.opts_of(case), bytes.fromhex(case['data'])
    m = decide(o, tuple(case['combo']), d)
    return f'{dump.describe_case(case)} combo {case["combo"]}: {m}' if m else None
