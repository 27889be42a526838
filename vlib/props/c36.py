"""C36: memory in use does not depend on the amount of input."""
import gc
import itertools
import os
import subprocess
import sys
import time
import tracemalloc
import types

from .. import corpus, engine, plans, sut
from ..ref import Opts

ID = 'C36'
TECHNIQUE = ('exhaustive enumeration of periodic inputs (all words of lexical units as the period), families with changing content and '
             'modes on the whole application; oracle: bytes allocated after a few periods = after many; real processes: resident size')
LEVEL_NOTE = ('all units as the period x 16 modes, all pairs of 10 units x 2 modes, 12 families of changing content x 8 modes, one byte '
              'per read x 16 modes; 216 against 612 units; real processes with 64 KB against 2 MB')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, all pairs of all units x 7 modes, all triples of 9 units x 2 modes'}
STATE = '(period of the input, mode) with the memory in use; a transition is one more period'
ASSUMPTIONS = ['lines and sequences are of a limited length', 'standard output keeps nothing', 'growth below 4 bytes per unit is noise']
WARM, MORE = 216, 396       # units
LONGER = 2388               # units, where the memory grew: caches of a limited size are full then
WINDOW = 17                 # reads
LIMIT = 2000                # bytes: two thirds of a reference per unit
RSS_LIMIT = 1200            # KB


class Sink(sut.CapIO):
    """an output that keeps nothing"""
    def __init__(self):
        super().__init__()
        self.size = 0

    def write(self, s):
        self.size += len(s)
        return len(s)


class Meter:
    """delivers the chunks of a source, measures at two points: the least of some reads"""
    closed = False

    def __init__(self, chunks, first, last):
        self.chunks, self.first, self.last = chunks, first, last
        self.number, self.rest, self.pos = 0, b'', 0
        self.memory = [1 << 60, 1 << 60]

    def read(self, n=-1):
        out = b''
        if n is None or n < 0:
            n = 1 << 60
        while n > len(out):
            if not self.rest:
                if out and n < 1 << 60:
                    break                          # one chunk per read
                self.number += 1
                for i, at in enumerate((self.first, self.last)):
                    if at - WINDOW < self.number <= at:        # what waits for the end of a row differs from read to read
                        gc.collect()
                        self.memory[i] = min(self.memory[i], tracemalloc.get_traced_memory()[0])
                if self.number > self.last:
                    break
                self.rest = self.chunks(self.number)
            piece = self.rest[:n - len(out)]
            self.rest = self.rest[len(piece):]
            out += piece
        self.pos += len(out)
        return out

    read1 = read

    def readinto(self, b):
        out = self.read(len(b))
        b[:len(out)] = out
        return len(out)

    def tell(self):
        return self.pos

    def close(self):
        pass


def measure(argv, chunks, first, last):
    m = sut.mods()
    inp = Meter(chunks, first, last)
    old = sys.stdin, sys.stdout, sys.stderr, sys.argv
    out, err = Sink(), sut.CapIO()
    code = None
    gc.collect()
    gc.freeze()
    try:
        sys.stdin, sys.stdout, sys.stderr = types.SimpleNamespace(buffer=inp), out, err
        sys.argv = ['kolombos', *argv]
        with sut.guard(120):
            tracemalloc.start()
            try:
                m.app.App().run()
            except SystemExit as e:
                code = e.code
            except Exception as e:                 # noqa
                code = sut.describe(e)
    except sut.SutTimeout as e:
        code = sut.describe(e)
    finally:
        tracemalloc.stop()
        gc.unfreeze()
        sys.stdin, sys.stdout, sys.stderr, sys.argv = old
        sut.forget_buffers()
    if code not in (0, None) or err.getvalue() or inp.number <= last:
        return f'exit code {code}, {err.getvalue()[-200:]!r}, {inp.number - 1} of {last} pieces of input taken'
    return inp.memory, out.size


def verdict(what, r, limit=LIMIT):
    if isinstance(r, str):
        return f'{what}: {r}'
    (a, b), _ = r
    if b - a > limit:
        return f'{what}: memory in use grows from {a} to {b} bytes'
    return None


PER_READ = 12


def periodic(unit, argv, single=False, warm=WARM, more=MORE):
    """the unit over and over"""
    if single:                                     # one byte per read
        chunks = lambda k: unit[k % len(unit):][:1]
        per = 1
    else:
        chunk = unit * PER_READ
        chunks = lambda k: chunk
        per = PER_READ
    f = [] if single == 'default' else ['-f', '1' if single else str(len(unit) * PER_READ)]
    return measure([*argv, *f], chunks, warm // per, (warm + more) // per)


FAMILIES = {
    'rgb': lambda k: b'\x1b[38;2;%d;%d;%dmx' % (k % 256, k // 256, 7),
    'indexed': lambda k: b'\x1b[48;5;%dmx' % (k % 1000),
    'sgr': lambda k: b'\x1b[%dmx' % k,
    'csi': lambda k: b'\x1b[%d;%dH' % (k, k),
    'letters': lambda k: chr(0x400 + k).encode(),
    'asian': lambda k: chr(0x4e00 + k).encode(),
    'emoji': lambda k: chr(0x1f300 + k).encode(),
    'invalid': lambda k: bytes([0x80 + k % 64, 0xc0 + k // 64 % 64]),
    'number': lambda k: b'%d ' % k,
    'long': lambda k: b'a' * (k % 50),
    'control': lambda k: bytes([k % 32, k * 7 % 32]) + b'\n',
    'lines': lambda k: b'ab\n' * (k % 5),
}


def family(name, argv, warm=WARM, more=MORE):
    f = FAMILIES[name]
    chunks = lambda k: b''.join(f(k * PER_READ + i) for i in range(PER_READ)).ljust(1, b'.') + b'\n'
    return measure([*argv, '-f', '1000'], chunks, warm // PER_READ, (warm + more) // PER_READ)


MODES = [Opts(binary=True, columns=4), Opts(), Opts(binary=True, columns=3, decode=True), Opts(marker=2, color_markers=True),
         Opts(binary=True), Opts(marker=1), Opts(binary=True, columns=16, decode=True, decimal=True), Opts(no_line_numbers=True),
         Opts(binary=True, columns=7, no_offsets=True), Opts(no_separators=True, max_lines=10 ** 9, max_bytes=10 ** 12), Opts(focus=['esc'], marker=2),
         Opts(binary=True, columns=5, decode=True, ignore=['print']),
         Opts(debug=1), Opts(debug=4, binary=True, columns=4), Opts(debug=4), Opts(binary=True, columns=2, color_markers=True)]
UNIT_PAIRS = [b'a', b' ', b'\n', b'\x00', b'\x1b', b'\x1b[31m', b'\x1b(B', 'é'.encode(), b'\xff', b'\xc3']
FAMILY_MODES = (0, 1, 2, 3, 5, 10, 12, 14)
THREE = [b'a', b'\n', b'\x1b', b'\x1b[31m', b'\xc3', 'é'.encode(), b'\x00', b' ', b'[']


def resident(argv, block, via):
    """peak size of a real process with a little and with a lot of input"""
    env = dict(os.environ, PYTHONPATH=sut.REPO, PYTHONUTF8='1', COLUMNS='80', PYTHONPYCACHEPREFIX=os.path.join(engine.scratch(), 'pyc'))
    path = os.path.join(engine.scratch(), 'c36.bin')
    sizes = []
    for size in (1 << 16, 1 << 21):
        with open(path, 'wb') as f:
            f.write(block * (size // len(block)))
        cmd = [sys.executable, '-W', 'ignore', '-m', 'kolombos', *argv] + ([path] if via == 'file' else [])
        for again in range(2 if not sizes else 1):         # the first run compiles
            with open(path, 'rb') as f:
                if via == 'pipe':
                    r, w = os.pipe()
                    writer = os.fork()
                    if writer == 0:
                        try:
                            os.close(r)
                            while piece := os.read(f.fileno(), 1 << 16):
                                os.write(w, piece)
                        finally:
                            os._exit(0)
                    os.close(w)
                else:
                    r = f.fileno() if via == 'redirect' else None
                p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL if r is None else r, stdout=subprocess.DEVNULL,
                                     stderr=subprocess.PIPE, env=env, cwd=engine.scratch())
                if via == 'pipe':
                    os.close(r)
                err = p.stderr.read()
                p.stderr.close()
                _, status, usage = os.wait4(p.pid, 0)
                p.returncode = os.waitstatus_to_exitcode(status)
                if via == 'pipe':
                    os.waitpid(writer, 0)
        if p.returncode or err:
            return f'{argv} {via}: exit code {p.returncode}, {err[-200:]!r}'
        sizes.append(usage.ru_maxrss)
    os.unlink(path)
    if sizes[1] - sizes[0] > RSS_LIMIT:
        return f'{argv} {via}: {sizes[1]} KB for 2 MB of input, {sizes[0]} KB for 64 KB'
    return None


BLOCK = b'a' * 1000 + b'\n'


def jobs(tier):
    q = tier == 'quick'
    out = [('resident', argv, via) for argv in ([], ['-b', '-w256']) for via in ('file', 'redirect', 'pipe')]
    out += [('units', m, i, i + 6) for m in range(len(MODES)) for i in range(0, len(corpus.UNITS), 6)]
    out += [('families', m, n) for m in (FAMILY_MODES if q else range(len(MODES))) for n in FAMILIES]
    out += [('bytes', m) for m in range(len(MODES))]
    n = len(UNIT_PAIRS)
    if q:
        out += [('pairs', m, i) for m in (0, 1) for i in range(n)]
    else:
        out += [('allpairs', m, i) for m in range(7) for i in range(len(corpus.UNITS))]
        out += [('triples', m, i, j) for m in (0, 1) for i in range(len(THREE)) for j in range(len(THREE))]
    return out


def cases(job):
    kind, m = job[:2]
    if kind == 'units':
        return [{'kind': 'unit', 'mode': m, 'unit': u.hex()} for u in corpus.UNITS[job[2]:job[3]]]
    if kind == 'families':
        return [{'kind': 'family', 'mode': m, 'name': job[2]}]
    if kind == 'bytes':
        docs = [b'a\n', b'\xc3\xa9\n', b'\x1b[31mx\n', b'\xff\n', b'\x00 \n', b'abcdefg hij\n'] + ([b'\x1b', b'a'] if MODES[m].binary else [])
        return [{'kind': 'bytes', 'mode': m, 'unit': u.hex()} for u in docs]
    if kind == 'pairs':
        return [{'kind': 'unit', 'mode': m, 'unit': (UNIT_PAIRS[job[2]] + b).hex()} for b in UNIT_PAIRS]
    if kind == 'allpairs':
        return [{'kind': 'unit', 'mode': m, 'unit': (corpus.UNITS[job[2]] + b).hex()} for b in corpus.UNITS]
    return [{'kind': 'unit', 'mode': m, 'unit': (THREE[job[2]] + THREE[job[3]] + b).hex()} for b in THREE]


_warm = set()


def decide(case):
    o = MODES[case['mode']]
    argv = o.argv()
    if case['kind'] == 'family':
        what = f'{argv} with changing input {case["name"]}'
        go = lambda *more: family(case['name'], argv, *more)
    else:
        unit = bytes.fromhex(case['unit'])
        if not o.binary and b'\n' not in unit:
            unit += b'\n'
        what = f'{argv} with {unit!r} over and over'
        go = lambda *more: periodic(unit, argv, case['kind'] == 'bytes', *more)
    r = go()
    m = verdict(what, r)
    if m and not isinstance(r, str):
        r = go()                                   # caches of the interpreter are filled now
        m = verdict(what, r)
    if m and not isinstance(r, str):               # does it go on?
        r = go(WARM + MORE, LONGER)
        m = verdict(what, r, LIMIT * LONGER // MORE)
    return m, r


def run(job, acc):
    if job[0] == 'resident':
        acc.traces += 2
        acc.state((tuple(job[1]), job[2]))
        m = resident(job[1], BLOCK, job[2])
        if m:
            acc.fail({'kind': 'resident', 'argv': job[1], 'via': job[2]}, m)
        return
    for case in cases(job):
        m, r = decide(case)
        acc.traces += 1
        key = tuple(case.values())
        acc.state(key)
        acc.transition(key)
        if not isinstance(r, str):
            acc.outcome((key[:2], r[1]))
        if m:
            acc.fail(case, m)
            if acc.full:
                return
    acc.sample(case)


def check(case):
    if case['kind'] == 'resident':
        return resident(case['argv'], BLOCK, case['via'])
    return decide(case)[0]
