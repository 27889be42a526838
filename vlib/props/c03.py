"""C03: the output does not depend on how the input arrives (short reads, buffer size)."""
from .. import corpus, dump, plans, sut, term
from ..engine import Acc
from ..ref import Opts

ID = 'C03'
TECHNIQUE = 'exhaustive enumeration of read schedules (all compositions, all buffer sizes) on the real reader and parser'
LEVEL_NOTE = ('all ways to cut inputs of <= 6 bytes into reads (<= 3 reads up to 12 bytes, 2 beyond), all buffer sizes 1..24 (1..700 with all units in a row), for '
              'all unit words <= 2 and mixed documents; all offsets of every unit around the default 4096/128 boundaries; '
              'lines and runs of up to 20000 bytes by the default and three other buffer sizes')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, all compositions up to 11 bytes, unit words <= 3, more modes'}
STATE = '(mode, input, how many bytes were delivered so far); a transition is one read'
ASSUMPTIONS = ['reads are never empty before the end of the input (blocking stdin or a regular file)']

MODES = [Opts(binary=True, columns=3), Opts(binary=True, columns=4, decode=True), Opts(), Opts(marker=2),
         Opts(marker=1, color_markers=True)]
BASE = {}


def compare(acc, o, data, script, buffer=None):
    """message or None: output for the schedule against the output for one big read"""
    key = (tuple(o.argv()), data)
    want = BASE.get(key)
    if want is None:
        if len(BASE) > 3000:
            BASE.clear()
        r = sut.run(o.argv() + ['-f', '1000000'], data)
        if r.error:
            return f'one read: {r.error}'
        acc.outcome(r.out)
        want = BASE[key] = [(row.cells, row.eol) for row in term.parse(r.out).rows]
    r = sut.run((o if buffer is None else o.replace(buffer=buffer)).argv(), data, script)
    if r.error:
        return r.error
    got = [(row.cells, row.eol) for row in term.parse(r.out).rows]
    if got == want:
        return None
    for i in range(max(len(got), len(want))):
        if i >= len(got) or i >= len(want):
            return f'{len(got)} rows instead of {len(want)} with one read'
        if got[i] != want[i]:
            return f'row {i} differs from the one with one read: {dump.diff_cells(want[i][0], got[i][0])}'


def one(acc, o, data, script=None, buffer=None):
    acc.traces += 1
    m = compare(acc, o, data, script, buffer)
    pos = 0
    key = (o.binary, o.marker, o.columns, data if len(data) < 200 else hash(data))
    for n in (script or [buffer] * (-(-len(data) // buffer) if len(data) < 200 else 1)):
        s = hash((key, pos))
        pos += n
        acc.states.add(s)
        acc.transitions.add(hash((s, n)))
    if m:
        acc.fail(dump.case_of(o if buffer is None else o.replace(buffer=buffer), data, script), m)
    return not acc.full


# lines and runs longer than the buffers (4096; 128 with --debug), also by several reads
LONG = [(u, k) for u in (b'x', b' ', b'\x00', b'\xff', 'é'.encode()) for k in (129, 4095, 4096, 4097, 5000, 8193)] + \
    [(b'x', 20000), (b'ab \x01' * 30, 137), (b'\x1b[31mq', 700), (b'a\t\n', 1600)]


def long_docs(u, k):
    body = (u * k)[:max(k, len(u) * 700)]
    return [body + b'\ny\n', b'a\n' + body + b'\x1b[mz', b'\x01' + body]


def jobs(tier):
    q = tier == 'quick'
    out = []
    n = len(corpus.UNITS)
    for m in range(len(MODES)):
        for a in range(n):
            out.append(('pairs', m, a, a + 1, 6 if q else 11))
        out.append(('docs', m))
        out += [('sizes', m, a, a + 75) for a in range(25, 700, 75)]
        for a in range(0, n, 6):
            out.append(('boundary', m, a, a + 6))
        out += [('long', m, i, not q) for i in range(len(LONG))]
        out += [('sequences', m, [k]) for k in ((5, 17, 34, 66, 130, 257, 520) if q else plans.LONGSEQ[4:])]
    if not q:
        for m in range(len(MODES)):
            for a in range(len(corpus.UNITS_SMALL)):
                out.append(('triples', m, a))
    for m in (1, 3) if q else range(len(MODES)):
        for a in range(0, len(corpus.UTF8_BYTES), 3):
            out.append(('utf8', m, a, a + 3))
        for a in range(0, len(corpus.ESC_BYTES), 3):
            out.append(('esc', m, a, a + 3))
    return out


def schedules(data, full):
    n = len(data)
    if n <= full:
        return corpus.compositions(n)
    return corpus.compositions(n, 3 if n <= 12 or full > 6 else 2)


def run(job, acc):
    kind, m = job[:2]
    o = MODES[m]
    if kind == 'pairs':
        for u in corpus.UNITS[job[2]:job[3]]:
            for v in [b''] + corpus.UNITS:
                d = u + v
                for sc in schedules(d, job[4]):
                    if not one(acc, o, d, sc):
                        return
                for f in range(1, len(d) + 1):
                    if not one(acc, o, d, None, f):
                        return
    elif kind == 'triples':
        for v in corpus.UNITS_SMALL:
            for w in corpus.UNITS_SMALL:
                d = corpus.UNITS_SMALL[job[2]] + v + w
                for sc in schedules(d, 6):
                    if not one(acc, o, d, sc):
                        return
    elif kind == 'docs':
        for d in plans.DOCS:
            for f in [*range(1, 25), 64, 128]:
                if d and not one(acc, o, d, None, f):
                    return
    elif kind == 'sizes':           # every size of the buffer
        d = b''.join(corpus.UNITS) + b'\n'
        for f in range(job[2], job[3]):
            if not one(acc, o, d * (2 * f // len(d) + 1), None, f):
                return
    elif kind == 'boundary':
        # every cut of every unit at the boundary of the default buffer (4096; 128 with --debug)
        for u in corpus.UNITS[job[2]:job[3]]:
            for k in range(0, len(u) + 1):
                for size in (4096,):
                    d = b'a\n\x01' + b'x' * (size - k - 3) + u + b'tail\n'
                    oo = o.replace(columns=64) if o.binary else o
                    acc.traces += 1
                    acc.state(('boundary', m, u, k))
                    acc.transition('boundary', m, u, k)
                    msg = compare(acc, oo, d, None)
                    if msg:
                        acc.fail(dump.case_of(oo, d), msg)
                        if acc.full:
                            return
    elif kind == 'long':
        for d in long_docs(*LONG[job[2]]):
            oo = o.replace(columns=64) if o.binary else o
            for f in (None, 128, 1000, 5000) if job[3] else (None,) + (128, 5000) * (job[2] % 6 == 1):
                acc.traces += 1
                acc.state(('long', m, job[2], f))
                acc.transition('long', m, job[2], f)
                msg = compare(acc, oo, d, None, f)
                if msg:
                    acc.fail(dump.case_of(oo if f is None else oo.replace(buffer=f), d), msg)
                    if acc.full:
                        return
    elif kind == 'sequences':
        for d in plans.generate(('longseq', job[2])):
            d = b'\x01' + d
            for sc in ([[k, len(d)] for k in range(1, len(d))] if len(d) < 300 else ()):
                if not one(acc, o, d, sc):
                    return
            for f in (1, 2, 3, 7, 16, 64, 100, 127, 128, 256, 512, 1000):
                if f < len(d) and not one(acc, o, d, None, f):
                    return
    elif kind in ('utf8', 'esc'):
        al = corpus.UTF8_BYTES if kind == 'utf8' else corpus.ESC_BYTES
        for u in al[job[2]:job[3]]:
            for w in corpus.words(al, 2, 1):
                d = u + w + b'A' if kind == 'utf8' else b'\x1b' + u + w
                if not one(acc, o, d, None, 1) or not one(acc, o, d, [2, len(d)]):
                    return
    acc.sample({'mode': o.argv(), 'job': repr(job)})


def check(case):
    o = dump.opts_of(case)
    f = o.buffer
    m = compare(Acc(), o.replace(buffer=None), bytes.fromhex(case['data']), case.get('script'), f)
    return f'{dump.describe_case(case)}: {m}' if m else None
