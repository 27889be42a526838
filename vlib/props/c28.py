"""C28: alignment of strings with color sequences is that of the strings without them."""
import itertools
import os
import re

from .. import corpus, sut

ID = 'C28'
TECHNIQUE = 'exhaustive enumeration of words over characters and sequences; oracle: alignment of plain strings by the standard library'
LEVEL_NOTE = ('all words of <= 5 (thorough: 6, at two widths) symbols of 12 (characters, SGR sequences, other and broken sequences) x widths -1..13 x '
              '2 fill characters x 3 alignments; words of <= 2 of them repeated up to 1025 times; all lists of <= 4 (thorough: 5) of 5 values x widths 0..18 x paddings; lists of up to 257 values with up to 5000 columns to fill')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': LEVEL_NOTE}
STATE = 'string and width; transitions are alignments'
ASSUMPTIONS = ['width of a string is the number of its characters', 'distribution is of at least one value']

ALPHABET = ['a', 'b', ' ', '世', '\x1b[m', '\x1b[1;31m', '\x1b[38;5;200m', '\x1b[2K', '\x1b[', '\x1b', 'm', '\n']
SGR = re.compile('\x1b\\[[0-9;]*m')
REPEATS = (15, 16, 17, 31, 32, 33, 64, 65, 100, 129, 257, 1025)
FILLS = [' ', '.']


def aligned(s, width, fill):
    from pytermor.util import stdlib_ext as e
    plain = SGR.sub('', s)
    for f, g in ((e.ljust_sgr, str.ljust), (e.rjust_sgr, str.rjust), (e.center_sgr, str.center)):
        out = f(s, width, fill)
        want = g(plain, width, fill)
        left = {'ljust': 0, 'rjust': len(want) - len(plain)}.get(g.__name__)
        if left is None:
            k = max(0, width - len(plain))
            left = k // 2 + (k & width & 1)
        full = want[:left] + s + want[left + len(plain):]
        if out != full:
            return f'{f.__name__}({s!r}, {width}, {fill!r}) is {out!r}, has to be {full!r}'
        if fill == ' ' and f(s, width) != out:
            return f'{f.__name__}({s!r}, {width}) is {f(s, width)!r}, with spaces it is {out!r}'
    return None


VALUES = ['', 'a', 'bb', 'cccc', 'ж']


def distributed(values, width, before, after):
    from pytermor.render import distribute_padded
    mine = list(values)
    what = f'distribute_padded({values}, {width}, {before}, {after})'
    items = [''] * before + list(values) + [''] * after
    gaps = len(items) - 1
    room = width - sum(map(len, items))
    try:
        out = distribute_padded(mine, width, pad_before=before, pad_after=after)
    except ValueError as e:
        if mine != list(values):
            return f'{what} modifies the list to {mine} before an error'
        return None if room < gaps else f'{what} raises {e!r}'
    if mine != list(values):
        return f'{what} modifies the list to {mine}'
    if room < gaps:
        return f'{what} is {out!r}: there is no room'
    if len(out) != width:
        return f'{what} is {out!r}: {len(out)} characters'
    if gaps == 0:
        return None if out.strip(' ') == items[0] else f'{what} is {out!r}'
    q, r = divmod(room, gaps)
    for more in itertools.combinations(range(gaps), r):
        if out == items[0] + ''.join(' ' * (q + (k in more)) + items[k + 1] for k in range(gaps)):
            return None
    return f'{what} is {out!r}: values are not in order with equal gaps'


def distributed_long(count, extra, before, after):
    """many values: all are there, in order, the gaps differ by one at most"""
    from pytermor.render import distribute_padded
    values = [f'v{k}' for k in range(count)]
    gaps = count - 1 + before + after
    width = len(''.join(values)) + gaps + extra
    out = distribute_padded(list(values), width, pad_before=before, pad_after=after)
    lens = [len(x) for x in re.findall(' +', out)]
    if len(out) != width or out.split() != values or len(lens) != gaps or (lens and max(lens) - min(lens) > 1) or \
            out.startswith(' ') != before or out.endswith(' ') != after:
        return f'{count} values distributed over {width} columns ({before}, {after}): {out!r:.200}, gaps {lens}'
    return None


def terminal_width():
    from pytermor.common import get_terminal_width
    old = os.environ.get('COLUMNS')
    try:
        for c in (1, 2, 3, 10, 79, 80, 81, 132, 500, 10000):
            os.environ['COLUMNS'] = str(c)
            w = get_terminal_width()
            if w > c or w < c - 2:
                return f'width of a terminal of {c} columns is {w}'
    finally:
        os.environ.pop('COLUMNS')
        if old is not None:
            os.environ['COLUMNS'] = old
    return None



def words(alphabet, k, a, b):
    n = len(alphabet)
    for i in range(a, b):
        w = []
        for _ in range(k):
            i, r = divmod(i, n)
            w.append(alphabet[r])
        yield w


def jobs(tier):
    q = tier == 'quick'
    out = [('width',)] + [('many', n) for n in (*range(2, 20), 31, 32, 33, 64, 100, 257)]
    for k in range(6 if q else 7):
        out += [('words', k, a, b) for a, b in corpus.slices(len(ALPHABET) ** k, {3: 4, 4: 16, 5: 64, 6: 256}.get(k, 1))]
    out += [('repeated', a) for a in range(len(ALPHABET))]
    out += [('lists', k, w) for k in range(0, 5 if q else 6) for w in range(0, 19)]
    return out


def run(job, acc):
    with sut.guard():
        if job[0] == 'width':
            acc.traces += 10
            m = terminal_width()
            if m:
                acc.fail({'width': True}, m)
        elif job[0] == 'many':
            for extra, before, after in itertools.product((*range(0, 70), 99, 100, 127, 255, 300, 1000, 5000), (False, True), (False, True)):
                acc.traces += 1
                acc.state(('many', job[1], extra, before, after))
                m = distributed_long(job[1], extra, before, after)
                if m:
                    acc.fail({'many': [job[1], extra, before, after]}, m)
                    return
        elif job[0] == 'repeated':
            for b, n in itertools.product([''] + ALPHABET, REPEATS):
                s = (ALPHABET[job[1]] + b) * n
                length = len(SGR.sub('', s))
                acc.state((job[1], b, n))
                for width in sorted({0, length - 1, length, length + 1, length + 7, 2 * length}):
                    acc.traces += 3
                    m = aligned(s, width, '.')
                    if m:
                        acc.fail({'string': s, 'width': width, 'fill': '.'}, m)
                        if acc.full:
                            return
        elif job[0] == 'words':
            for w in words(ALPHABET, *job[1:]):
                s = ''.join(w)
                acc.state(s)
                acc.outcome((len(s), len(SGR.sub('', s))))
                for width, fill in itertools.product(*((range(-1, 14), FILLS) if job[1] < 6 else ((6, 9), '.'))):
                    acc.traces += 3
                    m = aligned(s, width, fill)
                    if m:
                        acc.fail({'string': s, 'width': width, 'fill': fill}, m)
                        if acc.full:
                            return
                acc.transition(s, 'aligned')
            acc.sample({'string': s, 'width': width, 'fill': fill})
        else:
            for vals, before, after in itertools.product(itertools.product(VALUES, repeat=job[1]), (False, True), (False, True)):
                if not vals and not before and not after:
                    continue
                acc.traces += 1
                acc.state((vals, before, after))
                acc.transition(vals, before, after, job[2])
                m = distributed(vals, job[2], before, after)
                if m:
                    acc.fail({'values': list(vals), 'width': job[2], 'pads': [before, after]}, m)
                    if acc.full:
                        return


def check(case):
    with sut.guard():
        if 'string' in case:
            return aligned(case['string'], case['width'], case['fill'])
        if 'values' in case:
            return distributed(case['values'], case['width'], *case['pads'])
        if 'many' in case:
            return distributed_long(*case['many'])
        return terminal_width()
