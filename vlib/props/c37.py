"""C37: the work is proportional to the amount of input."""
import itertools
import sys

from .. import corpus, sut
from ..ref import Opts

ID = 'C37'
TECHNIQUE = ('exhaustive enumeration of periodic inputs (all words of lexical units as the period), families with changing content and '
             'modes on the whole application; oracle: number of executed calls and loop turns for n, 2n and 4n periods')
LEVEL_NOTE = ('all units as the period x 12 modes, everything read at once, x 5 modes by 16 bytes, all pairs of 14 units x 2 modes, 12 '
              'families of changing content x 6 modes; 250, 500 and 1000 periods')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'all of it x 12 modes x 3 read sizes, all pairs of all units x 6 modes x 2 read sizes, all triples of 10 units x 2 modes; to 4000 periods'}
STATE = '(period, mode, read size, number of periods) with the work done; a transition doubles the number of periods'
ASSUMPTIONS = ['lines and sequences are of a limited length', 'work inside of single calls of the interpreter (copying of a buffer, '
               'regular expressions) is not counted', 'debug levels above 1 show the state of buffers and are exempt']
N = 250
FACTOR = 2.2                # 2: proportional, 4: quadratic
FLOOR = 2000                # events: nothing to worry about


class Counter:
    """counts calls and backward jumps of the interpreter"""
    ID = 4

    def __enter__(self):
        mon = sys.monitoring
        ev = mon.events
        self.n = 0
        self.mon = mon
        mon.use_tool_id(self.ID, 'verif')

        def event(*a):
            self.n += 1
        for e in (ev.PY_START, ev.PY_RESUME, ev.CALL, ev.JUMP):
            mon.register_callback(self.ID, e, event)
        mon.set_events(self.ID, ev.PY_START | ev.PY_RESUME | ev.CALL | ev.JUMP)
        return self

    def __exit__(self, *a):
        self.mon.set_events(self.ID, 0)
        self.mon.free_tool_id(self.ID)


class Sink(sut.CapIO):
    limit = 1 << 60

    def write(self, s):
        return len(s)


def work(argv, data):
    out = Sink()
    with Counter() as c:
        r = sut.run_app(argv, data, stdout=out, cpu=100)
    if r.error or r.code or r.err:
        return f'{argv}: {r.error}, exit code {r.code}, {r.err[-200:]!r}'
    return c.n


def verdict(what, argv, datas):
    """datas: inputs of n, 2n, 4n units"""
    w = [work(argv, d) for d in datas]
    for x in w:
        if isinstance(x, str):
            return x, w
    first, second = w[1] - w[0], w[2] - w[1]
    if second > FLOOR and second > FACTOR * max(first, 0):
        return f'{what}: {w[0]}, {w[1]} and {w[2]} steps for {", ".join(str(len(d)) for d in datas)} bytes of input', w
    return None, w


MODES = [Opts(), Opts(binary=True, columns=4), Opts(binary=True), Opts(marker=2), Opts(binary=True, columns=1, decode=True),
         Opts(marker=1, color_markers=True), Opts(no_separators=True, no_line_numbers=True), Opts(binary=True, columns=16, decimal=True),
         Opts(focus=['esc']), Opts(binary=True, columns=8, ignore=['print']), Opts(debug=1), Opts(max_lines=10 ** 9, max_bytes=10 ** 12)]
SIZES = (16, 4096, 10 ** 6)
FAMILIES = {
    'rgb': lambda k: b'\x1b[38;2;%d;%d;%dmx' % (k % 256, k // 256, 7),
    'indexed': lambda k: b'\x1b[48;5;%dmx' % (k % 1000),
    'sgr': lambda k: b'\x1b[%dmx' % (k % 1000),
    'csi': lambda k: b'\x1b[%d;%dH' % (k % 1000, k % 100),
    'letters': lambda k: chr(0x400 + k % 1000).encode(),
    'asian': lambda k: chr(0x4e00 + k % 5000).encode(),
    'mixed': lambda k: [b'a', b' ', b'\x1b[1m', b'\xff', b'\x00', b'\xc3\xa9', b'\x1b(B'][k % 7],
    'invalid': lambda k: bytes([0x80 + k % 64, 0xc0 + k // 64 % 64]),
    'nulls': lambda k: b'\x00' * (k % 3) + b'\x01' * (k % 2),
    'words': lambda k: b'a' * (k % 9) + b' ',
    'control': lambda k: bytes([k % 10, k * 7 % 10]),
    'lines': lambda k: b'ab\n' * (k % 5),
}
UNITS_PAIRS = corpus.UNITS_SMALL
THREE = [b'a', b'\n', b'\x1b', b'\x1b[31m', b'\xc3', 'é'.encode(), b'\x00', b' ', b'[', b'\xff']


def build(case, n):
    o = MODES[case['mode']]
    if case['kind'] == 'family':
        f = FAMILIES[case['name']]
        # lines of 12 pieces
        return b''.join(b''.join(f(12 * k + i) for i in range(12)) + b'\n' for k in range(n // 12))
    unit = bytes.fromhex(case['unit'])
    if not o.binary and b'\n' not in unit:
        unit = unit * 4 + b'\n'
        n //= 4
    return unit * n


def decide(case):
    o = MODES[case['mode']]
    argv = o.argv() + ['-f', str(case['size'])]
    n = case.get('n', N)
    what = f'{argv} with {case.get("name") or bytes.fromhex(case["unit"])!r}'
    datas = [build(case, k) for k in (n, 2 * n, 4 * n)]
    m, w = verdict(what, argv, datas)
    return verdict(what, argv, datas) if m else (m, w)          # modules are imported, caches of the interpreter filled now


def jobs(tier):
    q = tier == 'quick'
    sizes = lambda m: SIZES if not q else SIZES[::2] if m < 4 or m == 11 else SIZES[2:]
    out = [('units', m, s, i) for m in range(len(MODES)) for s in sizes(m) for i in range(0, len(corpus.UNITS), 9)]
    out += [('families', m, s) for m in range(6 if q else len(MODES)) for s in (SIZES[1:] if m < 2 or not q else SIZES[2:])]
    if q:
        out += [('pairs', m, 10 ** 6, i) for m in (0, 1) for i in range(len(UNITS_PAIRS))]
    else:
        out += [('allpairs', m, s, i) for m in range(6) for s in (16, 10 ** 6) for i in range(len(corpus.UNITS))]
        out += [('triples', m, 10 ** 6, i, j) for m in (0, 1) for i in range(len(THREE)) for j in range(len(THREE))]
        out += [('long', m, s) for m in range(len(MODES)) for s in SIZES]
    return out


def cases(job):
    kind, m, size = job[:3]
    case = lambda u, **kw: {'kind': 'unit', 'mode': m, 'size': size, 'unit': u.hex(), **kw}
    if kind == 'units':
        return [case(u) for u in corpus.UNITS[job[3]:job[3] + 9]]
    if kind == 'families':
        return [{'kind': 'family', 'mode': m, 'size': size, 'name': n} for n in FAMILIES]
    if kind == 'pairs':
        return [case(UNITS_PAIRS[job[3]] + b) for b in UNITS_PAIRS]
    if kind == 'allpairs':
        return [case(corpus.UNITS[job[3]] + b) for b in corpus.UNITS]
    if kind == 'long':
        return [case(u, n=1000) for u in UNITS_PAIRS]
    return [case(THREE[job[3]] + THREE[job[4]] + b) for b in THREE]


def run(job, acc):
    for case in cases(job):
        m, w = decide(case)
        acc.traces += 3
        key = tuple(case.values())
        for i, x in enumerate(w):
            acc.state((key, i))
            acc.outcome(x)
        acc.transition(key, 1)
        acc.transition(key, 2)
        if m:
            acc.fail(case, m)
            if acc.full:
                return
    acc.sample(case)


def check(case):
    return decide(case)[0]
