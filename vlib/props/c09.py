"""C09: byte and line limits cut the dump exactly there, and stop the reading."""
import itertools

from .. import corpus, dump, ref, sut, term
from ..engine import Acc
from ..ref import Opts

ID = 'C09'
TECHNIQUE = ('exhaustive enumeration of limits x inputs x read schedules on the real reader, differential oracle '
             '(truncated input), endless scripted input for termination')
LEVEL_NOTE = ('all words <= 3 over 9 units, all byte limits 1..len+1, all line limits 1..lines+1 and all pairs of them, '
              'buffers 1..5 and default, all read compositions up to 6 bytes; limits around 4096 and 8192; every limit up to 600; endless input')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, words <= 4, compositions up to 8 bytes, four modes'}
STATE = '(mode, input, limits, bytes delivered); a transition is one read'
ASSUMPTIONS = ['limits are positive; zero means no limit']

AL = [b'a', b'\n', b'b\n', b'\xff', 'é'.encode(), b'\x1b[31m', b' ', b'\x1b', b'\n\n']
MODES = [Opts(binary=True, columns=3), Opts(marker=2), Opts(), Opts(binary=True, columns=4, decode=True)]
BASE = {}


def shown(r):
    return [(row.cells, row.eol) for row in term.parse(r.out).rows]


def want_of(o, data):
    key = (tuple(o.argv()), data)
    w = BASE.get(key)
    if w is None:
        if len(BASE) > 20000:
            BASE.clear()
        r = sut.run(o.argv(), data)
        w = BASE[key] = (r.error, shown(r))
    return w


def decide(o, data, mb, ml, buffer=None, script=None, acc=None):
    lim = o.replace(max_bytes=mb, max_lines=ml, buffer=buffer)
    cut = ref.limited(data, lim)
    w = want_of(o, cut)
    r = sut.run(lim.argv(), data, script)
    if acc is not None:
        acc.outcomes.add(hash(r.out))
    if r.error or w[0]:
        return r.error or w[0]
    if shown(r) != w[1]:
        return f'output differs from that for the first {len(cut)} bytes alone: {[x.text for x in term.parse(r.out).rows]}'
    size = buffer or 4096
    if cut != data and r.inp.taken > len(cut) + 1 + size:
        return f'{r.inp.taken} bytes read, with {len(cut)} to be printed and reads of {size}'
    return None


def go(acc, o, data, mb=None, ml=None, buffer=None, script=None):
    acc.traces += 1
    s = hash((o.binary, o.marker, data if len(data) < 100 else hash(data), mb, ml))
    acc.states.add(s)
    pos = 0
    for n in script or [buffer or 4096]:
        acc.transitions.add(hash((s, pos, n)))
        pos += n
    m = decide(o, data, mb, ml, buffer, script, acc)
    if m:
        case = dump.case_of(o.replace(max_bytes=mb, max_lines=ml, buffer=buffer), data, script)
        acc.fail(case, f'{dump.describe_case(case)}: {m}')
    return not acc.full


def endless(acc, o, unit, mb, ml, buffer):
    lim = o.replace(max_bytes=mb, max_lines=ml, buffer=buffer)
    acc.traces += 1
    r = sut.run(lim.argv(), unit, endless=True, cpu=60)
    reps = unit * (((mb or 0) + (ml or 0) * max(1, len(unit))) // len(unit) + 2)
    cut = ref.limited(reps, lim)
    w = sut.run(o.argv(), cut)
    acc.outcomes.add(hash(r.out))
    acc.state((o.binary, unit, mb, ml))
    acc.transition('endless', o.binary, unit, mb, ml, buffer)
    m = r.error or w.error
    if not m and shown(r) != shown(w):
        m = f'output differs from that for {len(cut)} bytes'
    if not m and r.inp.taken > len(cut) + 1 + (buffer or 4096):
        m = f'{r.inp.taken} bytes read, with {len(cut)} to be printed'
    if m:
        case = dump.case_of(lim, unit, endless=True)
        acc.fail(case, f'endless {dump.describe_case(case)}: {m}')
    return not acc.full


def jobs(tier):
    q = tier == 'quick'
    out = []
    for m in range(2 if q else 4):
        for a in range(len(AL)):
            out.append(('words', m, a, 3 if q else 4))
    for m in range(4):
        for a in range(len(AL)):
            out.append(('schedules', m, a, 6 if q else 8))
        out.append(('big', m))
        for a in range(1, 601, 50):
            out.append(('each', m, a, a + 50))
        out.append(('endless', m))
    return out


def run(job, acc):
    kind, m = job[:2]
    o = MODES[m]
    if kind == 'words':
        for k in range(job[3]):
            for rest in itertools.product(AL, repeat=k):
                d = AL[job[2]] + b''.join(rest)
                nl = d.count(b'\n')
                bs = range(1, len(d) + 2)
                ls = range(1, nl + 2)
                both = itertools.product((None, *bs), (None, *ls)) if k < 2 else \
                    [*((b, None) for b in bs), *((None, x) for x in ls), *((b, 1) for b in bs if nl)]
                for mb, ml in both:
                    for f in (None, 1, 2, 3, 5) if k < 2 else (None, 1 + (mb or ml or 0) % 4):
                        if not go(acc, o, d, mb, ml, f):
                            return
    elif kind == 'schedules':
        for v in AL:
            for w in (b'', b'\nz'):
                d = AL[job[2]] + v + w
                if len(d) > job[3]:
                    continue
                for sc in corpus.compositions(len(d)):
                    for mb, ml in ((1, None), (2, None), (len(d) - 1, None), (None, 1), (None, 2), (3, 1)):
                        if mb != 0 and not go(acc, o, d, mb, ml, None, sc):
                            return
    elif kind == 'each':            # every limit up to 600 bytes and lines
        o = o.replace(columns=16) if o.binary else o
        for k, d in enumerate((b'a' * 603, b'\n' * 603, b'ab\xc3\xa9\n' * 121, b'\x1b[1;31mx\n\x00' * 61, b'0123456789' * 60 + b'\n.\n')):
            for n in range(job[2], job[3]):
                for f in ((None, 1, 10, 16, 100, 256)[(n + k) % 6],):
                    if not go(acc, o, d, n, None, f) or (k < 2 and not go(acc, o, d, None, n, f)) or \
                            not go(acc, o, d, n, n // 7 + 1, f) or not go(acc, o, d, 601 - n, n, f):
                        return
    elif kind == 'big':
        o = o.replace(columns=64) if o.binary else o
        d = b''.join(b'%d\xc3\xa9' % i + b'-' * (100 + i) + b'\n' for i in range(75))
        edges = [i for s in (4096, 8192) for i in range(s - 3, s + 4)]
        for mb in edges:
            if not go(acc, o, d, mb):
                return
        nl = [ref.limited(d, o.replace(max_bytes=e)).count(b'\n') for e in edges]
        for ml in sorted({x + y for x in nl for y in (-1, 0, 1)} | {74, 75, 76}):
            if not go(acc, o, d, None, ml):
                return
        for i in range(4094, 4099):     # line break around the boundary of the read
            d = b'x' * i + b'\nafter\nmore\n'
            for ml in (1, 2, 3):
                for mb in (None, i, i + 1, i + 3):
                    if not go(acc, o, d, mb, ml):
                        return
    else:
        for unit in (b'a', b'\n', b'ab\n', b'\xff', b'\xc3\xa9\n', b'\x1b[1m\n', b'\x1b'):
            for f in (None, 1, 7, 100):
                for mb in (1, 2, 3, 10, 99, 100, 101):
                    if not endless(acc, o, unit, mb, None, f):
                        return
                if b'\n' in unit:
                    for ml in (1, 2, 3, 10, 33):
                        if not endless(acc, o, unit, None, ml, f) or not endless(acc, o, unit, 20, ml, f):
                            return
        for mb in (4095, 4096, 4097, 5000):
            if not endless(acc, o.replace(columns=64) if o.binary else o, b'a' * 97 + b'\n\xff', mb, None, None):
                return
    acc.sample({'mode': o.argv(), 'job': list(job)})


def check(case):
    o, d = dump.opts_of(case), bytes.fromhex(case['data'])
    plain = o.replace(max_bytes=None, max_lines=None, buffer=None)
    if case.get('endless'):
        acc = Acc()
        endless(acc, plain, d, o.max_bytes, o.max_lines, o.buffer)
        return acc.fails[0][1] if acc.fails else None
    m = decide(plain, d, o.max_bytes, o.max_lines, o.buffer, case.get('script'))
    return f'{dump.describe_case(case)}: {m}' if m else None
