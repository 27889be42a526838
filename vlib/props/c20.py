"""C20: the closing part of a span restores what the opening part changed, and nothing else."""
import itertools

from .. import corpus, sut, term

ID = 'C20'
TECHNIQUE = ('exhaustive enumeration of opening parameter lists x surrounding styles; the real spans are interpreted '
             'by a terminal model (attribute state machine)')
LEVEL_NOTE = ('all lists of <= 2 of 64 parameters and extended colors, <= 3 of 26 (thorough: <= 3 of 64, <= 4 of 26), '
              'all single colors of all palettes; 13 surrounding styles; construction by numbers, names and sequences; '
              'explicit spans over a menu of pairs; every parameter repeated up to 1000 times; all parameters in a row (rotated, reversed, cut); '
              '260 texts within each span')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': LEVEL_NOTE}
STATE = 'attribute state of the terminal; transitions are opening and closing parts'
ASSUMPTIONS = ['the terminal follows ECMA-48 / xterm for the parameters of the alphabet',
               'incomplete extended colors (a bare 38) are no formatting and are left out']

SETS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 53, 31, 97, 40, 107]
OFFS = [22, 23, 24, 25, 27, 28, 29, 39, 49, 55]
EXT = [(38, 5, 0), (38, 5, 1), (38, 5, 38), (48, 5, 4), (48, 5, 255), (48, 5, 48), (38, 2, 1, 2, 3), (38, 2, 38, 5, 7),
       (48, 2, 0, 0, 0), (48, 2, 48, 2, 5), (38, 2, 255, 22, 39)]
UNKNOWN = [(10,), (26,), (50,), (99,), (1000,)]
FULL = [(p,) for p in [0, *SETS, *OFFS, *range(30, 38), *range(41, 48), 90, 93, 100, 105]] + EXT + UNKNOWN
FULL = list(dict.fromkeys(FULL))
SMALL = [(0,), (1,), (2,), (3,), (4,), (5,), (7,), (9,), (21,), (53,), (22,), (24,), (39,), (31,), (92,), (44,), (103,),
         (38, 5, 5), (48, 5, 38), (38, 2, 1, 2, 3), (48, 2, 4, 5, 38), (38, 2, 0, 0, 0), (48, 5, 0), (8,), (6,), (10,)]
ALL_SET = ('31', '34', 1, 1, 1, 1, 1, 1, 1, 1, 1)
SURROUND = [term.DEFAULT, ALL_SET] + [tuple(ALL_SET[k] if j == k else d for j, d in enumerate(term.DEFAULT))
                                      for k in range(11)]
NAMES = ['reset', 'bold', 'dim', 'italic', 'underlined', 'blink_slow', 'blink_fast', 'inversed', 'hidden', 'crosslined']
# attribute set by a parameter (by its first number)
SETTER = {1: {term.BOLD}, 2: {term.DIM}, 3: {term.ITALIC}, 4: {term.UL}, 21: {term.UL}, 5: {term.BLINK},
          6: {term.BLINK}, 7: {term.INV}, 8: {term.HIDDEN}, 9: {term.CROSS}, 53: {term.OVER}}


def touched(units):
    out = set()
    for u in units:
        p = u[0]
        if p in SETTER:
            out |= SETTER[p]
        elif 30 <= p <= 38 or 90 <= p <= 97:
            out.add(term.FG)
        elif 40 <= p <= 48 or 100 <= p <= 107:
            out.add(term.BG)
    if out & {term.BOLD, term.DIM}:      # there is one code that turns off both
        out |= {term.BOLD, term.DIM}
    return out


def pt():
    import pytermor
    return pytermor


def state_after(state, text):
    """interprets a string that must consist of SGR sequences only"""
    parts = term.SGR_RE.split(text)
    for i, p in enumerate(parts):
        if i & 1:
            state = term.apply_sgr(state, p)
        elif p:
            return None
    return state


def build(units, how):
    P = pt()
    flat = [x for u in units for x in u]
    if how == 'numbers':
        return P.Span(*flat)
    if how == 'sequence':
        return P.Span(P.SequenceSGR(*flat))
    if how == 'sequences':
        return P.Span(*[P.SequenceSGR(*u) for u in units])
    seq = P.NOOP_SEQ
    for u in units:
        seq = seq + P.SequenceSGR(*u)
    return P.Span(seq)


def holds(units, how, acc=None):
    with sut.guard():
        span = build(units, how)
        opening, closing, wrapped = span.opening_str, span.closing_str, span.wrap('x')
        again = span('x'), span.wrap(), span.wrap(7)
        seqs = span.opening_seq.assemble(), span.closing_seq.assemble()
    if wrapped != opening + 'x' + closing or again != (wrapped, opening + closing, opening + '7' + closing):
        return f'wrap gives {wrapped!r}, {again!r}; opening {opening!r}, closing {closing!r}'
    if seqs != (opening, closing):
        return f'sequences of the span are {seqs!r}, strings {opening!r} {closing!r}'
    flat = [x for u in units for x in u]
    T = touched(units)
    for s in SURROUND:
        a = state_after(s, opening)
        want = term.apply_params(s, flat) if flat else s
        if a != want:
            return f'opening part {opening!r} on {term.show(s)} gives {a and term.show(a)}, not {term.show(want)}'
        c = state_after(a, closing)
        end = tuple(d if k in T else v for k, (v, d) in enumerate(zip(a, term.DEFAULT)))
        if acc is not None:
            acc.state((s, a))
            acc.transition(s, a, c)
        if c != end:
            return f'span {flat} ({how}), surrounding style {term.show(s)}: after the closing part {closing!r} it is ' \
                   f'{c and term.show(c)} instead of {term.show(end)}'
    return None


LENGTHS = [*range(3, 34), 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000]
TEXTS = ['', '0', ' ', '\n', 'a\nb', '\n\n', '\x1b', '\x1b[0m', '\x1b[m', 'a\x1b[31mb\x1b[39mc', '\x1b[1mx\x1b[22m', '%s', '%', '{}', '{0}', '\\1', '\\g<0>',
         'ж', '漢', '\U0001f600', '\udc80', '\0', '\r\n', '\x9b1m', 'xy' * 5000, *map(chr, range(256)), 0, 0.0, False, True, -1, 1.5, [], [0], (), {}, b'', b'x']


def texts(units):
    """any text comes out between the parts as it is"""
    with sut.guard():
        span = build(units, 'numbers')
        for t in TEXTS:
            want = span.opening_str + str(t) + span.closing_str
            got = span.wrap(t), span(t)
            if got != (want, want):
                return f'span of {units} around {t!r:.60} is {got!r:.200}'
    return None


def long_lists(kind, k):
    if kind == 'repeated':                      # a unit many times, then another one
        for n in LENGTHS:
            yield [FULL[k]] * n
            yield [FULL[k]] * n + [FULL[(k + 1) % len(FULL)]]
            yield [FULL[(k + 1) % len(FULL)]] * n + [FULL[k]]
    else:                                       # everything, from some unit on
        turned = FULL[k:] + FULL[:k]
        for n in range(3, len(FULL) + 1):
            yield turned[:n]
            yield turned[:n][::-1]
            yield turned[:n:2] * 2


PAIRS = [None, (), (0,), (1,), (31,), (22, 39), (38, 5, 1)]


def explicit():
    """explicit spans use what they were given"""
    P = pt()
    for o, c, hard in itertools.product(PAIRS, PAIRS, (False, True)):
        seq = [None if x is None else P.SequenceSGR(*x) for x in (o, c)]
        want = ['' if x is None else P.SequenceSGR(*x).assemble() for x in (o, c)]
        if hard:
            want[1] = '\x1b[m'
        with sut.guard():
            span = P.Span.init_explicit(*seq, hard_reset_after=hard)
            got = [span.opening_str, span.closing_str]
            text = span.wrap('t')
        if got != want or text != want[0] + 't' + want[1]:
            return f'explicit span of {o}, {c}, {hard}: {got!r}, {text!r} instead of {want!r}'
    with sut.guard():
        n = P.NOOP_SPAN
        if (n('t'), n.wrap(), n.opening_str, n.closing_str) != ('t', '', '', ''):
            return 'NOOP_SPAN is not empty'
    return None


def equality(units, other):
    P = pt()
    with sut.guard():
        a, b, c = build(units, 'numbers'), build(units, 'added'), build(other, 'numbers')
        if not a == b:
            return f'spans of the same {units} are not equal'
        if (a == c) != ([x for u in units for x in u] == [x for u in other for x in u]):
            return f'spans of {units} and {other}: equal is {a == c}'
    return None


def words(name, k, a, b):
    alphabet = FULL if name == 'full' else SMALL
    n = len(alphabet)
    for i in range(a, b):
        w = []
        for _ in range(k):
            i, r = divmod(i, n)
            w.append(alphabet[r])
        yield w


def jobs(tier):
    q = tier == 'quick'
    out = [('explicit',), ('palette',), ('equal',), ('texts',)]
    out += [('long', kind, k) for kind in ('repeated', 'turned') for k in range(len(FULL))]
    for name, alphabet, k in (('full', FULL, 2 if q else 3), ('small', SMALL, 3 if q else 4)):
        for i in range(k + 1):
            for a, b in corpus.slices(len(alphabet) ** i, 16 if i > 1 else 1):
                out.append(('words', name, i, a, b))
    return out


HOWS = ['numbers', 'sequence', 'sequences', 'added']


def run(job, acc):
    if job[0] == 'explicit':
        acc.traces += 98
        m = explicit()
        if m:
            acc.fail({'explicit': True}, m)
        return
    if job[0] == 'equal':
        for u, v in itertools.product(SMALL, SMALL):
            acc.traces += 1
            m = equality([u, v], [v, u]) or equality([u], [v])
            if m:
                acc.fail({'equal': [u, v]}, m)
        return
    if job[0] == 'texts':
        for u in FULL:
            acc.traces += len(TEXTS)
            m = texts([u])
            if m:
                acc.fail({'texts': [u]}, m)
        return
    if job[0] == 'long':
        cases = long_lists(job[1], job[2])
    elif job[0] == 'palette':
        cases = [[(p,)] for p in range(0, 110) if p not in (38, 48, 58)]
        cases += [[(c, 5, n)] for c in (38, 48) for n in range(256)]
        cases += [[(c, 2, *([0] * k + [n] + [0] * (2 - k)))] for c in (38, 48) for n in range(256) for k in range(3)]
    else:
        cases = words(*job[1:])
    for i, units in enumerate(cases):
        for how in HOWS if len(units) < 2 else [HOWS[i % 4]]:
            acc.traces += 1
            m = holds(units, how, acc)
            if m:
                acc.fail({'units': units, 'how': how}, m)
                if acc.full:
                    return
        acc.outcome(tuple(x for u in units for x in u) if len(units) < 2 else len(touched(units)))
    acc.sample({'units': units, 'how': 'numbers'})


def check(case):
    if 'explicit' in case:
        return explicit()
    if 'texts' in case:
        return texts([tuple(u) for u in case['texts']])
    if 'equal' in case:
        u, v = [tuple(x) for x in case['equal']]
        return equality([u, v], [v, u]) or equality([u], [v])
    return holds([tuple(u) for u in case['units']], case['how'])
