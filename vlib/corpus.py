"""Input alphabets and exhaustive enumerations over them."""
from __future__ import annotations

import itertools

# one or two bytes for every role a byte can play in the syntax
BYTES = [bytes([b]) for b in b'a0;m[ \n\t\r\x00\x02\x1b\x7f\xc3\xa9\xff']
BYTES_SMALL = [bytes([b]) for b in b'a0m[ \n\x02\x1b\xc3\xa9']

# complete lexical units, one or more of every kind
UNITS = [b'a', b'#~', b' ', b'\t', b'\n', b'\x0b', b'\x0c', b'\r',
         b'\x00', b'\x01', b'\x08', b'\x1f', b'\x7f', b'\x1b',
         b'\x1b[m', b'\x1b[0m', b'\x1b[31m', b'\x1b[1;4m', b'\x1b[38;5;208m', b'\x1b[48;2;1;2;3m',
         b'\x1b[2J', b'\x1b[?25h', b'\x1b(B', b'\x1b7', b'\x1bM', b'\x1bc',
         'é'.encode(), '€'.encode(), '𝄞'.encode(), b'\xc2\x9b',
         b'\x80', b'\xff', b'\xc3', b'\xf0\x9f']
UNITS_SMALL = [b'a', b' ', b'\n', b'\x00', b'\x01', b'\x1b', b'\x1b[m', b'\x1b[31m', b'\x1b[2J',
               b'\x1b(B', b'\x1bM', 'é'.encode(), '€'.encode(), b'\xff']

# every boundary of the UTF-8 encoding forms
UTF8_BYTES = [bytes([b]) for b in (0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc1, 0xc2, 0xdf,
                                   0xe0, 0xe1, 0xec, 0xed, 0xee, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5)]
# every boundary of the escape sequence syntax
ESC_BYTES = [bytes([b]) for b in b'[0?;: /(mA@~`_^M\x1b\n\x1f\x7f\x80']


def words(alphabet, n, lo=0):
    """all words of lo..n symbols"""
    for k in range(lo, n + 1):
        for w in itertools.product(alphabet, repeat=k):
            yield b''.join(w)


def words_range(alphabet, k, start, stop):
    """words of exactly k symbols with index in [start, stop)"""
    m = len(alphabet)
    for i in range(start, stop):
        w = []
        for _ in range(k):
            i, r = divmod(i, m)
            w.append(alphabet[r])
        yield b''.join(reversed(w))


def slices(total, parts):
    """[0, total) in about `parts` ranges"""
    step = max(1, -(-total // parts))
    return [(a, min(total, a + step)) for a in range(0, total, step)]


def packs(strings, sep, size):
    """strings joined with sep into inputs of about `size` bytes"""
    buf = []
    n = 0
    for s in strings:
        buf.append(s)
        n += len(s) + len(sep)
        if n >= size:
            yield sep.join(buf)
            buf = []
            n = 0
    if buf:
        yield sep.join(buf)


def compositions(n, max_parts=None):
    """all ways to cut n bytes into non-empty reads"""
    for cuts in range(0, n):
        if max_parts and cuts + 1 > max_parts:
            return
        for c in itertools.combinations(range(1, n), cuts):
            edges = (0,) + c + (n,)
            yield [b - a for a, b in zip(edges, edges[1:])]


RUN_LENGTHS = [*range(1, 20), 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000,
               1023, 1024, 1025, 4095, 4096, 4097, 5000]


def runs(lengths=RUN_LENGTHS, units=UNITS):
    """long runs of every unit"""
    for u in units:
        for n in lengths:
            yield u * n


def all_pairs():
    """every pair of bytes (as one de Bruijn-like walk: pair (a, b) for all a, b)"""
    for a in range(256):
        yield b''.join(bytes([a, b]) for b in range(256))
