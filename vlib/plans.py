"""The bounded input/option spaces of the dump checks, cut into jobs.

A job is (Opts, spec[, script, columns]); generate(spec) enumerates the inputs.
"""
from __future__ import annotations

import itertools

from . import corpus
from .corpus import BYTES, BYTES_SMALL, UNITS, UNITS_SMALL, UTF8_BYTES, ESC_BYTES
from .ref import Opts, CLASSES

ALPHABETS = {'BYTES': BYTES, 'BYTES_SMALL': BYTES_SMALL, 'UNITS': UNITS, 'UNITS_SMALL': UNITS_SMALL,
             'UTF8': UTF8_BYTES, 'ESC': ESC_BYTES}
PACK_BUFFER = 16     # -f for packed inputs; small reads keep the (quadratic) buffers short
PACK_SIZE = 300

# realistic documents that mix everything
DOCS = [
    b'', b'\n', b'a', b'\xff', b'\x1b', b'no newline at the end',
    b'plain text\nsecond line\n\n\nafter blanks\n',
    b'\x1b[31mred\x1b[0m and \x1b[1;38;5;208mbold\x1b[22;39m\n\x1b[4mul\x1b[m\n',
    b'\x1b[38;2;255;0;16mRGB\x1b[48;5;17mBG\x1b[m\x1b[97;41mhi\x1b[0m',
    b'tab\there\r\nvt\x0bff\x0c bs\x08del\x7fnul\x00\x00\x01\x02\x1a\x1f\n',
    'кириллица é€𝄞 日本語\n'.encode(),
    b'bin\x80\x81\xfe\xff mixed \xc3\xa9\xff\xe2\x82\xac\xc3\n',
    b'\x1b[2J\x1b[?25l\x1b(B\x1b)0\x1b7\x1b8\x1bM\x1bc\x1b]0;title\x07\x1b\\\n',
    b'\x1b[>4;1m\x1b[?1049h\x1b[4:3m\x1b[;;m\x1b[38;5m\x1b[01;31m\n',
    b'a b  c   d\t\t\te\n \n\t\n',
    b'\xc2\x9b31m \xc2\x80 \xc2\xa0 \xed\x9f\xbf \xed\xa0\x80 \xf4\x8f\xbf\xbf \xf4\x90\x80\x80',
    bytes(range(256)),
    b''.join(bytes([b, 10]) for b in range(256)),
    b'\x1b\x1b\x1b[\x1b[3\x1b[31\n\x1b \x1b#8\x1b%G\x1b~\x1b`\x1b',
]


def generate(spec):
    kind = spec[0]
    if kind == 'hex':
        return [bytes.fromhex(h) for h in spec[1]]
    if kind == 'words':                         # one run per word
        _, name, k, a, b = spec
        return corpus.words_range(ALPHABETS[name], k, a, b)
    if kind == 'packed':                        # many words per run
        _, name, k, a, b, sep = spec
        return corpus.packs(corpus.words_range(ALPHABETS[name], k, a, b), sep, PACK_SIZE)
    if kind == 'esc':                           # ESC + word
        _, k, a, b, sep = spec
        return corpus.packs((b'\x1b' + w for w in corpus.words_range(ESC_BYTES, k, a, b)), sep, PACK_SIZE)
    if kind == 'runs':
        _, a, b, lengths = spec
        return corpus.runs(lengths, UNITS[a:b])
    if kind == 'pairs':
        _, a, b = spec
        return [bytes(x for y in range(256) for x in (p, y)) for p in range(a, b)]
    if kind == 'docs':
        return DOCS[spec[1]:spec[2]]
    if kind == 'docjoin':                       # every ordered pair of documents
        return [x + y for x in DOCS[spec[1]:spec[2]] for y in DOCS]
    if kind == 'codepoints':                    # consecutive code points (surrogates too), and each alone on a line
        _, a, b = spec
        enc = [chr(c).encode('utf-8', 'surrogatepass') for c in range(a, b)]
        return [b'\n'.join(b''.join(enc[i:i + 32]) for i in range(k, min(k + 1024, len(enc)), 32))
                for k in range(0, len(enc), 1024)]
    if kind == 'longseq':                       # sequences with many parameters, digits and intermediate bytes
        forms = [lambda n: b'\x1b[' + b';'.join([b'31'] * n) + b'm', lambda n: b'\x1b[' + b';' * n + b'1m',
                 lambda n: b'\x1b[' + b'0' * n + b'1m', lambda n: b'\x1b[' + b'38;5;' * n + b'48;2;1;2;3m',
                 lambda n: b'\x1b[' + b'12;' * n + b'H', lambda n: b'\x1b[?' + b'5' * n + b'h', lambda n: b'\x1b[1' + b' ' * n + b'q',
                 lambda n: b'\x1b' + b'(' * n + b'B', lambda n: b'\x1b[' + b'1;' * n, lambda n: b'\x1b[4' + b'!' * n + b'\xff']
        return [f(n) + end for n in spec[1] for f in forms for end in (b'a\n',)]
    if kind == 'escany':                        # prefix + any two bytes + suffix
        _, prefix, suffix, a, b = spec
        return [b''.join(bytes.fromhex(prefix) + bytes([x, y]) + bytes.fromhex(suffix) for y in range(256)) for x in range(a, b)]
    if kind == 'lines':
        return [bytes(spec[2]) * n for n in spec[1]]
    raise ValueError(spec)


def cut(name, k, parts, packed_sep=None):
    """all words of exactly k symbols, in `parts` specs"""
    total = len(ALPHABETS[name]) ** k
    for a, b in corpus.slices(total, parts):
        yield ('words', name, k, a, b) if packed_sep is None else ('packed', name, k, a, b, packed_sep)


def upto(name, k):
    """all words of 0..k symbols, one run each (small ones)"""
    for i in range(k + 1):
        yield ('words', name, i, 0, len(ALPHABETS[name]) ** i)


def esc_words(k, parts, sep=b'a'):
    for a, b in corpus.slices(len(ESC_BYTES) ** k, parts):
        yield ('esc', k, a, b, sep)


SHORT_RUNS = [*range(1, 20), 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]
LONG_RUNS = [1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 8191, 8192, 8193]


def bin_plan(tier, scale=1.0):
    """(Opts, spec) of binary mode: every geometry against every input shape"""
    q = tier == 'quick'
    B = Opts(binary=True)
    out = []

    def add(o, specs):
        out.extend((o, s) for s in specs)
    ws = [1, 2, 3, 4, 5, 7, 16] if q else [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 32]
    for w in ws:
        for dec in (False, True):
            o = B.replace(columns=w, decode=dec)
            add(o, upto('BYTES', 2))
            add(o, upto('UNITS', 1))
            add(o, cut('UNITS', 2, 2))
    for w in (1, 2, 3) if q else ws:
        add(B.replace(columns=w, decode=w % 2 == 0), cut('BYTES', 3, 8))
    pk = B.replace(buffer=PACK_BUFFER)
    if q:
        add(pk.replace(columns=3), cut('UNITS_SMALL', 3, 4, b''))
        add(pk.replace(columns=5, decode=True), cut('UNITS_SMALL', 3, 4, b'\n'))
        add(pk.replace(columns=8, decode=True), cut('UNITS', 3, 32, b''))
    else:
        for w in (2, 3, 4, 5, 7, 8):
            add(pk.replace(columns=w, decode=w % 2 == 1), cut('UNITS', 3, 24, b''))
        for w in (2, 5):
            add(B.replace(columns=w, decode=True), cut('UNITS', 3, 48))
        add(B.replace(columns=3), cut('BYTES', 4, 64))
        add(pk.replace(columns=4), cut('BYTES_SMALL', 5, 64, b''))
    for w in (1, 3, 4, 16) if q else (1, 2, 3, 4, 5, 7, 8, 16, 33):
        for a in range(len(UNITS)):
            add(B.replace(columns=w, decode=w != 3), [('runs', a, a + 1, tuple(SHORT_RUNS[:28 if w > 1 else 22]))])
    for a in range(0, len(UNITS), 5 if q else 1):
        add(B.replace(columns=100, decode=True), [('runs', a, a + 1, tuple(LONG_RUNS[5 if q else 0:7 if q else None]))])
    for a in range(0, 256, 16):
        add(pk.replace(columns=16, decode=True), [('pairs', a, a + 16)])
    for dec, off, cm, w in itertools.product((False, True), ('', 'decimal', 'no_offsets'), (False, True),
                                             (None, 1, 4, 7) if q else (None, 1, 2, 4, 7, 16, 33)):
        o = B.replace(decode=dec, color_markers=cm, columns=w, **({off: True} if off else {}))
        fi = [((), ()), (CLASSES, ()), ((), CLASSES), (CLASSES[:3], CLASSES[3:]), (CLASSES[3:], CLASSES[:3])]
        for f, g in fi:
            add(o.replace(focus=f, ignore=g), [('docs', 0, len(DOCS) - 3), ('docs', len(DOCS) - 1, len(DOCS))])
    add(B.replace(decode=True), [('docs', 0, len(DOCS))])
    add(B, [('docs', 0, len(DOCS))])
    for a in range(0, len(DOCS), 2):
        add(B.replace(columns=6, buffer=7), [('docjoin', a, a + 2)])
    return out


def text_plan(tier, markers=(0, 1, 2)):
    """(Opts, spec) of text mode"""
    q = tier == 'quick'
    T = Opts()
    out = []

    def add(o, specs):
        out.extend((o, s) for s in specs)
    for m in markers:
        for kw in ({}, {'no_separators': True}, {'no_line_numbers': True}):
            o = T.replace(marker=m, **kw)
            add(o, upto('BYTES', 2))
            add(o, upto('UNITS', 1))
            add(o, cut('UNITS', 2, 2))
        add(T.replace(marker=m), cut('BYTES', 3, 8))
        add(T.replace(marker=m, buffer=PACK_BUFFER), cut('UNITS_SMALL', 3, 6, b'\n'))
        for a in range(0, 256, 16):
            add(T.replace(marker=m, buffer=PACK_BUFFER), [('pairs', a, a + 16)])
        for a in range(0, len(UNITS), 4):
            add(T.replace(marker=m), [('runs', a, a + 4, tuple(SHORT_RUNS[:22]))])
        add(T.replace(marker=m, buffer=PACK_BUFFER), [('lines', (9, 10, 11, 99, 100, 101, 1001), b'\n'),
                                                      ('lines', (99, 100, 101, 500), b'a\x1b[31m\n'),
                                                      ('lines', (128, 1000), b'\xc3\xa9\n')])
        for nl, ns, cm in itertools.product((False, True), repeat=3):
            o = T.replace(marker=m, no_line_numbers=nl, no_separators=ns, color_markers=cm)
            fi = [((), ()), (CLASSES, ()), ((), CLASSES), (CLASSES[:3], CLASSES[3:]), (CLASSES[3:], CLASSES[:3])]
            for f, g in fi:
                add(o.replace(focus=f, ignore=g), [('docs', 0, len(DOCS))])
        for a in range(0, len(DOCS), 4):
            add(T.replace(marker=m, buffer=7), [('docjoin', a, a + 4)])
        if not q:
            add(T.replace(marker=m), cut('UNITS', 3, 48))
            add(T.replace(marker=m, buffer=PACK_BUFFER), cut('BYTES', 4, 32, b'\n'))
    if q:
        add(T.replace(marker=markers[-1], buffer=PACK_BUFFER), cut('UNITS', 3, 32, b'\n'))
    for a in range(0, len(UNITS), 5 if q else 1):
        add(T, [('runs', a, a + 1, tuple(LONG_RUNS[5 if q else 0:7 if q else None]))])
    return out


LONGSEQ = (*range(1, 41), 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025, 1500)


def long_sequences(o, top=1500):
    for a, b in ((0, 20), (20, 40), (40, 50), (50, 54), (54, 99)):
        if lengths := tuple(n for n in LONGSEQ[a:b] if n <= top):
            yield o, ('longseq', lengths)


def widths(o, top=300):
    """tables of any width, shorter and longer than the input"""
    data = bytes(range(32, 127)) * 4
    for a in range(17, top, 48):
        for w in range(a, min(top, a + 48)):
            yield o.replace(columns=w), ('hex', [data[:n].hex() for n in (1, w - 1, w, w + 1, 2 * w, 2 * w + 1)])


def wide(o, step=0x4000):
    """values instead of structure: every code point, every two bytes after ESC and in a CSI sequence"""
    for a in range(0, 0x110000, step):
        yield o, ('codepoints', a, a + step)
    for prefix, suffix in (('1b', '61'), ('1b5b', '6d61'), ('1b5b33', '48')):
        for a in range(0, 256, 64):
            yield o, ('escany', prefix, suffix, a, a + 64)


def long_runs(o, lengths=(65537, 131073), every=4):
    for a in range(0, len(UNITS), every):
        for n in lengths:
            yield o, ('runs', a, a + 1, (n // len(UNITS[a]) + 1,))
