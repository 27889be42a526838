"""C18: the segment queue gives out what was put in."""
import itertools

from .. import sut, term
from ..term import DEFAULT, apply_params

ID = 'C18'
TECHNIQUE = ('exhaustive enumeration of histories of operations on the real queue against a list model, checked after '
             'every operation')
LEVEL_NOTE = ('all histories of <= 5 operations over 2 menus of 12 (binary mode: appending plain and styled segments of 1 '
              'to 5 bytes, taking 1 to 9 bytes; text mode: segments of all shapes, taking lines), all histories of 7 '
              'over a menu of 4; segments of up to 5000 bytes and up to 600 segments, taken by 1 to all of it')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, histories of <= 6 operations, <= 11 over the menus of 4'}
STATE = 'history of operations; a transition is one more operation; the model state is the list of cells left'
ASSUMPTIONS = ['splitting is asked for only where a segment has as many characters as bytes, as in binary mode; '
               'lines are asked for only where every line break ends a segment, as in text mode']

S = {'-': [], '0': [0], 'r': [31], 'p': [38, 5, 210, 48, 5, 16], 'd': [48, 5, 0, 4], 'b': [1, 7], 't': [38, 2, 1, 0, 3]}


def seg(style, raw, processed):
    return (style, raw, processed)


# operations: ['a', segments...], ['n', bytes, force], ['l', force]
BIN = [
    ['a', seg('r', b'a', 'A')], ['a', seg('-', b'bcd', 'BCD')], ['a', seg('p', b'\x1b', 'ǝ'), seg('d', b'[31m', '[31m')],
    ['a', seg('r', b'\xc3\xa9', '_é'), seg('r', b'fg', 'FG')], ['a', seg('0', b'\n', '↵')],
    ['a', seg('b', b'hijkl', 'HIJKL'), seg('-', b'm', 'M'), seg('t', b'no', 'NO')],
    ['n', 1, False], ['n', 2, False], ['n', 4, False], ['n', 9, False], ['n', 3, True], ['n', 9, True],
]
TEXT = [
    ['a', seg('r', b'a', 'A')], ['a', seg('-', b'bcd', 'BCD')], ['a', seg('r', b'\n', '↵\n')],
    ['a', seg('t', b'', '<'), seg('p', b'\x1b', 'ǝ'), seg('d', b'[31m', '31'), seg('t', b'', '>')],
    ['a', seg('p', b'\x1b[m', 'θ')], ['a', seg('r', b'\xc3\xa9', 'é'), seg('-', b'\n', '↵\n')],
    ['a', seg('b', b'\x01', 'Ɐ'), seg('d', b'', '01')], ['a', seg('0', b'\n', '\n'), seg('r', b'\n', '\n')],
    ['a', seg('b', b'\t\t', '⇥\t⇥\t')], ['a', seg('-', b'\x1bM', 'Ǝ'), seg('t', b'', '>'), seg('r', b'\n', '\n')],
    ['l', False], ['l', True],
]
SMALL_BIN = [BIN[3], BIN[5], BIN[7], BIN[10]]
SMALL_TEXT = [TEXT[3], TEXT[5], TEXT[10], TEXT[11]]
MENUS = {'bin': BIN, 'text': TEXT, 'sbin': SMALL_BIN, 'stext': SMALL_TEXT}


def st(name):
    return apply_params(DEFAULT, S[name])


class Model:
    """what is left: one item for a byte (binary) or for a segment (text)"""

    def __init__(self, binary):
        self.binary = binary
        self.items = []         # (raw, chars, style)

    def attach(self, segs):
        for s, raw, proc in segs:
            if self.binary:
                self.items += [(raw[i:i + 1], proc[i:i + 1], st(s)) for i in range(len(raw))]
            else:
                self.items.append((raw, proc, st(s)))

    @property
    def len(self):
        return sum(len(i[0]) for i in self.items)

    def take(self, op):
        """items taken, or the name of the refusal"""
        if op[0] == 'n':
            if self.len >= op[1]:
                n = op[1]
            elif op[2]:
                n = len(self.items)
                if n == 0:
                    return 'EOFError'
            else:
                return 'WaitRequest'
        else:
            n = next((i + 1 for i, it in enumerate(self.items) if '\n' in it[1]), None)
            if n is None:
                if self.len == 0:
                    return 'EOFError'
                if not op[1]:
                    return 'WaitRequest'
                n = len(self.items)
        out = self.items[:n]
        self.items = self.items[n:]
        return out


def hexes(s):
    return s.raw.hex(' ')


_api = None


def api():
    global _api
    if _api is None:
        sut.mods()
        from kolombos.byteio import WaitRequest
        from kolombos.byteio.segment import SegmentBuffer, Segment, SegmentPrinter
        from kolombos.settings import SettingsManager
        from pytermor import SequenceSGR
        SettingsManager.init()
        printers = [SegmentPrinter(True, False, lambda s: ''.join(f'{b:02x}' for b in s.raw)),
                    SegmentPrinter(True, False, lambda s: s.processed),
                    SegmentPrinter(False, False, lambda s: s.processed),
                    SegmentPrinter(True, True, lambda s: s.processed)]
        _api = (WaitRequest, SegmentBuffer, Segment, printers, {k: SequenceSGR(*v) for k, v in S.items()})
    return _api


def cells(items, k):
    out = []
    for raw, chars, style in items:
        out += [(c, style) for c in (''.join(f'{b:02x}' for b in raw) if k == 0 else chars)]
    return out


def decoded(s):
    """cells of the output with encoded SGRs: [ǝ31] -> the SGR itself"""
    import re
    return re.sub(r'\[ǝ([0-9;]*)\]', '\x1b[\\1m', s)


def flat(s):
    """all cells including line breaks"""
    out = []
    scr = term.parse(s)
    for r in scr.rows:
        out += r.cells
        if r.eol:
            out.append(('\n', None))
    return out, scr.final


def compare(items, got):
    if not isinstance(got, tuple) or len(got) != 4:
        return f'{len(got)} strings for 4 printers'
    for k in range(4):
        want = cells(items, k)
        if k == 2:
            if got[2] != ''.join(c for c, _ in want):
                return f'printer without styles gives {got[2]!r} instead of {"".join(c for c, _ in want)!r}'
            continue
        have, final = flat(decoded(got[k]) if k == 3 else got[k])
        if final != DEFAULT:
            return f'{got[k]!r} leaves a style open'
        if len(have) != len(want):
            return f'{got[k]!r} instead of {"".join(c for c, _ in want)!r}'
        for (c, a), (d, b) in zip(want, have):
            if c != d or (c != '\n' and a != b):
                return f'{got[k]!r} instead of {"".join(x for x, _ in want)!r}: {d!r} is {term.show(b) if b else b}, ' \
                       f'has to be {c!r} {term.show(a) if a else a}'
    return None


def play(binary, ops):
    """None or (index of the operation, message)"""
    wait, buffer_cls, segment_cls, printers, styles = api()
    m = Model(binary)
    buf = buffer_cls()
    for i, op in enumerate(ops):
        if op[0] == 'a':
            buf.attach(*[segment_cls(styles[s], 'X', raw, proc) for s, raw, proc in op[1:]])
            m.attach(op[1:])
        else:
            want = m.take(op)
            try:
                got = buf.detach_bytes(op[1], op[2], printers) if op[0] == 'n' else buf.detach_line(op[1], printers)
            except wait:
                got = 'WaitRequest'
            except EOFError:
                got = 'EOFError'
            if isinstance(want, str) or isinstance(got, str):
                if want != got:
                    return i, f'{got!r} instead of {want if isinstance(want, str) else "".join(c[1] for c in want)!r}'
            else:
                e = compare(want, got)
                if e:
                    return i, e
                n = sum(len(x[0]) for x in want)
                if buf.last_detached_data_len != n:
                    return i, f'length of the piece taken is reported as {buf.last_detached_data_len} instead of {n}'
        if buf.data_len != m.len:
            return i, f'{buf.data_len} bytes are left instead of {m.len}'
    return None


def show(op):
    if op[0] == 'a':
        return 'attach ' + ' '.join(f'{raw!r}->{p!r}:{s}' for s, raw, p in op[1:])
    return f'take {op[1]} bytes{" forced" if op[2] else ""}' if op[0] == 'n' else f'take line{" forced" if op[1] else ""}'


def verify(menu, idx):
    ops = [MENUS[menu][i] for i in idx]
    if 'bin' in menu:       # and then all that is left
        ops.append(['n', 10 ** 6, True])
    else:
        ops += [['l', True]] * (2 + sum(len(op) - 1 for op in ops if op[0] == 'a'))
    with sut.guard():
        r = play('bin' in menu, ops)
    if r:
        return f'{[show(op) for op in ops[:r[0] + 1]]}: {r[1]}'
    return None


SIZES = (*range(1, 41), 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 4095, 4096, 4097, 5000)


def sized(n, k, i):
    """long segments, many segments: n bytes, taken by k"""
    style = list(S)[i % len(S)]
    data = bytes(32 + j % 95 for j in range(n))
    one = [['a', seg(style, data, data.decode())]]
    many = [['a', seg(list(S)[(i + j) % len(S)], data[j:j + 1], chr(data[j]))] for j in range(min(n, 600))]
    alike = [['a', seg(style, data[j:j + 1], chr(data[j]))] for j in range(min(n, 600))]
    for put in (one, many, alike, [['a', *[op[1] for op in many]]], [*one, *one]):
        yield 'bin', put + [['n', k, False]] * min(12, n // k + 1)
        yield 'bin', put + [['n', k, True]] + put + [['n', k, False], ['n', 1, False], ['n', k, True]]
    for put in (one, many, alike):
        yield 'text', [['l', False], *put, ['l', False], ['a', seg('r', b'\n', '\n')], ['l', False], ['l', True]]
        yield 'text', put + [['a', seg('-', b'\n', '\n')]] + put + [['l', False], ['l', False], ['l', True]]


def many_lines(n, i):
    style = list(S)[i % len(S)]
    yield 'text', [['a', seg(style, b'x\n', 'x\n')]] * n + [['l', False]] * (n + 1)
    yield 'text', [['a', *[seg(style, b'\n', '\n')] * n]] + [['l', False]] * n


def series(kind, n, i):
    if kind == 'lines':
        yield from many_lines(n, i)
        return
    for k in sorted({1, 2, 3, 7, 16, n - 1, n, n + 1, n // 2 + 1, n + n - 1, 2 * n, 2 * n + 1} - {0}):
        yield from sized(n, k, i)


def verify_series(kind, n, i):
    for menu, ops in series(kind, n, i):
        if menu == 'bin':
            ops = ops + [['n', 10 ** 6, True]]
        with sut.guard():
            r = play(menu == 'bin', ops)
        if r:
            return f'{n} bytes: {str([show(op)[:60] for op in ops[max(0, r[0] - 3):r[0] + 1]])[:300]}: {r[1][:300]}'
    return None


def jobs(tier):
    q = tier == 'quick'
    out = [('series', k, n) for n in SIZES for k in ('sizes', 'lines') if k == 'sizes' or n <= 1000]
    for menu, small in (('bin', 'sbin'), ('text', 'stext')):
        n = len(MENUS[menu])
        if q:
            out += [(menu, [i, j], 5) for i in range(n) for j in range(n) if MENUS[menu][i][0] == 'a']
            out += [(small, [i, j], 7) for i in range(4) for j in range(4)]
        else:
            out += [(menu, [i, j], 6) for i in range(n) for j in range(n) if MENUS[menu][i][0] == 'a']
            out += [(small, [i, j], 11) for i in range(4) for j in range(4)]
        # histories that start with taking from an empty queue
        out += [(menu, [i], 3) for i in range(n) if MENUS[menu][i][0] != 'a']
    return out


def run(job, acc):
    if job[0] == 'series':
        for i in range(len(S)) if job[2] < 100 else (3,):
            acc.traces += 1
            acc.state((job, i))
            acc.transition(job, i)
            m = verify_series(*job[1:], i)
            if m:
                acc.fail({'series': [*job[1:], i]}, m)
                return
        sut.forget_buffers()
        return
    menu, prefix, depth = job
    n = len(MENUS[menu])
    for rest in itertools.product(range(n), repeat=depth - len(prefix)):
        idx = [*prefix, *rest]
        acc.traces += 1
        m = verify(menu, idx)
        if m:
            # shorter history with the same failure
            for k in range(1, len(idx)):
                if verify(menu, idx[:k]):
                    idx = idx[:k]
                    break
            acc.fail({'menu': menu, 'ops': idx}, verify(menu, idx) or m)
            if acc.full:
                return
    total = 1
    for k in range(len(prefix), depth + 1):
        for x in range(min(total, 20000)):
            acc.state((menu, tuple(prefix), k, x))
            acc.transition(menu, tuple(prefix), k, x)
        total *= n
    acc.counts['operations'] += total // n * depth
    acc.outcome((menu, tuple(prefix)))
    acc.sample([show(MENUS[menu][i]) for i in idx])
    sut.forget_buffers()


def check(case):
    if 'series' in case:
        return verify_series(*case['series'])
    return verify(case['menu'], case['ops'])
