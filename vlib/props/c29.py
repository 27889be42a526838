"""C29: string filters replace exactly what they name."""
import itertools
import re

from .. import corpus, sut

ID = 'C29'
TECHNIQUE = 'exhaustive enumeration of words and chains of filters; oracle: hand-written scanners'
LEVEL_NOTE = ('all words of <= 5 (thorough: 6) symbols of 15 (characters, whitespace, sequences and pieces of them) x 9 filters; words of '
              '<= 3 x all chains of <= 2 (thorough: 3) filters given as classes and instances; words of <= 2 symbols repeated up to 1025 times; all words of <= 4 of 9 bytes; all single '
              'characters up to U+3100')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': LEVEL_NOTE}
STATE = 'string; transitions are filters'
ASSUMPTIONS = ['control sequences without intermediate bytes that end with a letter or @, as the filters have it']

ALPHABET = ['a', 'm', '1', ';', ' ', '\n', '\t', '\u2003', '\x1b', '\x1b[', '\x1b[m', '\x1b[1;31m', '\x1b[2K', '\x1b[?25h', '[']
BYTES = [0, 10, 0x1b, 0x3f, 0x41, 0x7f, 0x80, 0xc3, 0xff]


def F():
    from pytermor.util import string_filter
    return string_filter


def sequences(s, params, finals):
    """pieces of a string: (None, char) or (match groups)"""
    i, n = 0, len(s)
    while i < n:
        if s.startswith('\x1b[', i):
            j = i + 2
            while j < n and s[j] in params:
                j += 1
            if j < n and s[j] in finals:
                yield s[i:j + 1], s[i + 2:j], s[j]
                i = j + 1
                continue
        yield s[i], None, None
        i += 1


REPEATS = (16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025)
LETTERS = '@' + ''.join(map(chr, range(65, 91))) + ''.join(map(chr, range(97, 123)))


def seqs(params, finals, repl):
    return lambda s: ''.join(p if f is None else repl(p, q, f) for p, q, f in sequences(s, params, finals))


def spaces(repl):
    return lambda s: ''.join(repl + '\n' if c == '\n' else repl if c.isspace() else c for c in s)


SGR = ('0123456789;', 'm')
CSI = ('0123456789;:<=>?', LETTERS)
# name: (how the filter is made, oracle, class or instance)
FILTERS = {
    'sgr': (lambda m: m.ReplaceSGR, seqs(*SGR, lambda p, q, f: '')),
    'sgr x': (lambda m: m.ReplaceSGR('x'), seqs(*SGR, lambda p, q, f: 'x')),
    'sgr groups': (lambda m: m.ReplaceSGR(r'E\2\3\5'), seqs(*SGR, lambda p, q, f: 'E[' + q + f)),
    'sgr function': (lambda m: m.ReplaceSGR(lambda x: f'<{x.group(3)}>'), seqs(*SGR, lambda p, q, f: f'<{q}>')),
    'csi': (lambda m: m.ReplaceCSI, seqs(*CSI, lambda p, q, f: '')),
    'csi groups': (lambda m: m.ReplaceCSI(r'{\3\5}'), seqs(*CSI, lambda p, q, f: '{' + q + f + '}')),
    'space': (lambda m: m.VisualuzeWhitespace, spaces('·')),
    'space .': (lambda m: m.VisualuzeWhitespace('..'), spaces('..')),
    'pattern': (lambda m: m.StringFilter('[am]+', '<\\g<0>>'), lambda s: re.sub('[am]+', lambda x: f'<{x.group()}>', s)),
    'compiled': (lambda m: m.StringFilter(re.compile('1|;'), lambda x: '.' * len(x.group())), lambda s: s.replace('1', '.').replace(';', '.')),
}
NAMES = list(FILTERS)


def made(name):
    f = FILTERS[name][0](F())
    return f, (f() if isinstance(f, type) else f)


def one(s, name):
    m = F()
    as_given, inst = made(name)
    want = FILTERS[name][1](s)
    got = [inst.apply(s), inst(s), m.apply_filters(s, as_given), m.apply_filters(s, inst)]
    if any(g != want for g in got):
        return f'filter {name!r} of {s!r} gives {got}, has to be {want!r}'
    return None


def chain(s, names):
    m = F()
    want = s
    for n in names:
        want = FILTERS[n][1](want)
    for k in (0, 1):
        got = m.apply_filters(s, *[made(n)[k] for n in names])
        if got != want:
            return f'filters {names} of {s!r} give {got!r}, have to give {want!r}'
    return None


def raw(b):
    m = F()
    want = bytes(63 if c > 127 else c for c in b), b''.join(b'<>' if c > 127 else bytes([c]) for c in b)
    got = (m.ReplaceNonAsciiBytes().apply(b), m.ReplaceNonAsciiBytes(b'<>').apply(b))
    if got != want or m.apply_filters(b, m.ReplaceNonAsciiBytes) != want[0] or m.ReplaceNonAsciiBytes()(b) != want[0]:
        return f'7-bit filter of {b!r} gives {got}, has to be {want}'
    return None



def words(alphabet, k, a, b):
    n = len(alphabet)
    for i in range(a, b):
        w = []
        for _ in range(k):
            i, r = divmod(i, n)
            w.append(alphabet[r])
        yield w


def jobs(tier):
    q = tier == 'quick'
    out = [('none',), ('chars',)]
    for k in range(6 if q else 7):
        out += [('words', k, a, b) for a, b in corpus.slices(len(ALPHABET) ** k, {3: 4, 4: 16, 5: 64, 6: 512}.get(k, 1))]
    for k in range(4):
        for a, b in corpus.slices(len(ALPHABET) ** k, {3: 32}.get(k, 1)):
            out.append(('chains', k, a, b, 2 if q or k == 3 else 3))
    out += [('repeated', a) for a in range(len(ALPHABET))]
    out += [('bytes', k, a, b) for k in range(5) for a, b in corpus.slices(9 ** k, 4 if k > 3 else 1)] + [('byte',)]
    return out


def run(job, acc):
    def bad(case, m):
        if m:
            acc.fail(case, m)
        return acc.full

    with sut.guard():
        kind = job[0]
        if kind == 'none':
            for s in ('', 'a\x1b[1m\n'):
                if F().apply_filters(s) != s:
                    bad({'chain': [s, []]}, 'no filters change a string')
        elif kind == 'repeated':
            for b in [''] + ALPHABET:
                for k in REPEATS if not b else REPEATS[2::4]:
                    s = (ALPHABET[job[1]] + b) * k
                    acc.state((job[1], b, k))
                    for n in NAMES:
                        acc.traces += 1
                        if bad({'string': s, 'filter': n}, one(s, n)):
                            return
            for k in REPEATS:
                w = bytes([BYTES[job[1] % len(BYTES)]]) * k
                if bad({'bytes': list(w)}, raw(w)):
                    return
        elif kind in ('words', 'chars'):
            ws = words(ALPHABET, *job[1:]) if kind == 'words' else \
                [(a + chr(c) + b,) for c in range(0x3100) if not 0xd800 <= c < 0xe000 for a, b in (('', ''), ('\x1b[', ''), ('\x1b[1', 'm'))
                 if not a or chr(c) in CSI[0] + CSI[1] or c < 0x20]
            for w in ws:
                s = ''.join(w)
                if job[1:2] < (6,):
                    acc.state(s)
                acc.transition(*(n for n in NAMES if FILTERS[n][1](s) != s))
                for n in NAMES:
                    acc.traces += 1
                    if bad({'string': s, 'filter': n}, one(s, n)):
                        return
            acc.outcome((kind, job[1:2]))
            acc.sample({'string': s, 'filter': n})
        elif kind == 'chains':
            for w in words(ALPHABET, *job[1:4]):
                s = ''.join(w)
                for k in range(2, job[4] + 1):
                    for names in itertools.product(NAMES, repeat=k):
                        acc.traces += 1
                        acc.outcome(names)
                        if bad({'chain': [s, names]}, chain(s, names)):
                            return
        else:
            ws = words(BYTES, *job[1:]) if kind == 'bytes' else [(c,) for c in range(256)]
            for w in ws:
                acc.traces += 1
                acc.state(bytes(w))
                if bad({'bytes': list(w)}, raw(bytes(w))):
                    return


def check(case):
    with sut.guard():
        if 'string' in case:
            return one(case['string'], case['filter'])
        if 'chain' in case:
            return chain(*case['chain'])
        return raw(bytes(case['bytes']))
