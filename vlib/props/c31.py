"""C31: an interrupted or failing run shows what it has got, cleanly, and stops."""
import os
import re
import subprocess
import sys
import types

from .. import corpus, dump, engine, plans, sut, term
from ..engine import Acc
from ..ref import Opts

ID = 'C31'
TECHNIQUE = ('exhaustive fault injection on the real application: every read of the input fails or is interrupted, and '
             'a keyboard interrupt at every single executed line of code between two reads; every moment at which the '
             'reader of the output goes away (real processes); every write that fails; encodings which lack characters')
LEVEL_NOTE = ('all words of a unit and a common unit, and mixed documents, read sizes 1, 3 and 16, every read x 3 kinds of faults, 6 modes; '
              'interrupts at every line executed between two reads or prints (first time each) for 9 documents in 3 modes; output closed after each of 8 amounts, '
              'finite and endless input; every write fails on all units and documents in 6 modes; 6 encodings of the output; full disk (real processes)')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, all unit pairs, unit words <= 3 over a smaller alphabet, read sizes '
                                           '1..5, interrupts at every time a line is executed, 5 modes, and for unit pairs'}
STATE = '(mode, input, bytes delivered, kind of the fault); a transition is a read, or the fault'
ASSUMPTIONS = ['an interrupt arrives between two lines of the source (where the interpreter delivers signals)',
               'one print() call is atomic']

MODES = [Opts(binary=True, columns=3), Opts(binary=True, columns=4, decode=True), Opts(), Opts(marker=2),
         Opts(marker=1, color_markers=True), Opts(binary=True, columns=2, color_markers=True, marker=2)]
FAULTS = {'interrupt': KeyboardInterrupt, 'io': lambda: OSError(5, 'Input/output error'),
          'dir': lambda: IsADirectoryError(21, 'Is a directory')}
UNFINISHED_ESC = re.compile(rb'\x1b(\[[\x30-\x3f]*[\x20-\x2f]*|[\x20-\x2f]*)\Z')


def undecided(d: bytes) -> int:
    """number of bytes at the end that the next ones may still turn into another sequence"""
    m = UNFINISHED_ESC.search(d)
    if m:
        return len(d) - m.start()
    for k in (1, 2, 3):
        if k <= len(d) and d[-k] >= 0xc2:
            need = 2 if d[-k] < 0xe0 else 3 if d[-k] < 0xf0 else 4
            return k if k < need else 0
        if k <= len(d) and not 0x80 <= d[-k] < 0xc0:
            break
    return 0


def due(o, d: bytes) -> int:
    """rows that have to be on the screen once `d` was read"""
    d = d[:len(d) - undecided(d)]
    return len(d) // o.columns if o.binary else d.count(b'\n')


def rows_of(out):
    s = term.parse(out)
    return [(r.cells, r.eol) for r in s.rows], s


def common(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return n


_full = {}


def full(o, data, size):
    key = (tuple(o.argv()), data, size)
    r = _full.get(key)
    if r is None:
        if len(_full) > 50:
            _full.clear()
        a = sut.run_app(o.argv() + ['-f', str(size)], data)
        r = _full[key] = (a, rows_of(a.out)[0])
    return r


def judge(o, data, r, whole, delivered, kind):
    """message or None; `whole`: rows of the undisturbed run"""
    got, s = rows_of(r.out)
    if s.final != term.DEFAULT:
        return f'a style is left open at the end: {term.show(s.final)}'
    n = common(got, whole)
    if delivered is not None and n < due(o, delivered):
        return f'{len(delivered)} bytes were read, that is {due(o, delivered)} complete rows, but only {n} of them are shown'
    rest = got[n:]
    if kind == 'interrupt':
        if r.code != 0 or r.err:
            return f'exit code {r.code}, standard error {r.err[-200:]!r}'
        if len(rest) > 1 or rest and rest[0][0] != (whole[n][0] if n < len(whole) else [])[:len(rest[0][0])]:
            return f'not a beginning of the whole dump: {rest[0]!r} after {n} rows'
        return None
    if r.code in (0, None) or not isinstance(r.code, int):
        return f'exit code {r.code} after a read error'
    err = term.SGR_RE.sub('', r.err)
    name, text = {'io': ('OSError', 'Input/output error'), 'dir': ('IsADirectoryError', 'Is a directory')}[kind]
    if name not in err or text not in err:
        return f'the error is not named: {r.err!r}'
    if 'Traceback' in r.out + r.err:
        return 'traceback without --debug'
    if term.parse(r.err).final != term.DEFAULT:
        return 'a style is left open at the end of standard error'
    return None


def read_fault(acc, o, data, size, k, kind):
    a, whole = full(o, data, size)
    if a.error or a.code != 0:
        return f'undisturbed run: {a.error or a.code} {a.err!r}'
    acc.traces += 1
    delivered = data[:size * (k - 1)]
    try:
        r = sut.run_app(o.argv() + ['-f', str(size)], data, fault=(k, FAULTS[kind]()))
    except KeyboardInterrupt:
        return 'the interrupt is not handled (traceback)'
    finally:
        sut.forget_buffers()
    key = (tuple(o.argv()), data, size)
    acc.state((key, k))
    acc.state((key, k, kind))
    acc.transition(key, k)
    acc.transition(key, k, kind)
    acc.outcome((r.code, due(o, delivered)))
    if r.error:
        return r.error
    if r.inp.reads != k:
        return f'read {r.inp.reads - k} more times after the fault'
    return judge(o, data, r, whole, delivered, kind)


# ------------------------------------------------------------------ interrupts at every line

class Injector:
    """raises KeyboardInterrupt at the n-th line executed after the first read"""

    def __init__(self, n):
        self.n = n
        self.count = 0
        self.inp = self.out = None
        self.where = None
        self.points = {}            # (place, reads, characters printed) -> first time there
        self.prefixes = tuple(os.path.join(sut.REPO, p) + os.sep for p in ('kolombos', 'pytermor'))

    def call(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(self.prefixes) else None

    def line(self, frame, event, arg):
        if event == 'line' and self.inp.reads and not self.inp.closed:
            self.count += 1
            if self.n < 0:
                self.points.setdefault((frame.f_code, frame.f_lineno, self.inp.reads, self.out.count), self.count)
            elif self.count == self.n:
                self.where = f'{os.path.relpath(frame.f_code.co_filename, sut.REPO)}:{frame.f_lineno}'
                sys.settrace(None)
                raise KeyboardInterrupt()
        return self.line


def traced(argv, data, n):
    m = sut.mods()
    inj = Injector(n)
    old = sys.stdin, sys.stdout, sys.stderr, sys.argv
    out, err = sut.CapIO(), sut.CapIO()
    inp = inj.inp = sut.ScriptedInput(data)
    inj.out = out
    code, error = 'no exit', None
    try:
        sys.stdin, sys.stdout, sys.stderr = types.SimpleNamespace(buffer=inp), out, err
        sys.argv = ['kolombos', *argv]
        with sut.guard():
            app = m.app.App()
            frame = sys._getframe()
            saved, frame.f_trace = frame.f_trace, None
            sys.settrace(inj.call)
            try:
                app.run()
            except SystemExit as e:
                code = 0 if e.code is None else e.code
            except KeyboardInterrupt:
                error = 'KeyboardInterrupt'
            except (Exception, sut.SutTimeout, sut.SutFlood) as e:
                error = sut.describe(e)
            finally:
                sys.settrace(None)
                frame.f_trace = saved
    finally:
        sys.stdin, sys.stdout, sys.stderr, sys.argv = old
        sut.forget_buffers()
    return sut.Result(out.getvalue(), err.getvalue(), error, code=code, inp=inp), inj


def line_fault(acc, o, data, size, n, whole_out, whole):
    r, inj = traced(o.argv() + ['-f', str(size)], data, n)
    acc.traces += 1
    acc.state((tuple(o.argv()), data, size, 'line', n))
    acc.transition((tuple(o.argv()), data, size, 'line', n))
    if inj.where is None:
        return None
    acc.outcome((inj.where,))
    if r.error == 'KeyboardInterrupt':
        # the input was read to the end and shown: the application is no longer in charge of it
        got = rows_of(r.out)[0]
        if r.out.rstrip('\n') == whole_out.rstrip('\n'):
            return None
        return f'interrupt at {inj.where}: not handled (traceback) after {len(got)} of {len(whole)} rows'
    if r.error:
        return f'interrupt at {inj.where}: {r.error}'
    m = judge(o, data, r, whole, None, 'interrupt')
    return f'interrupt at {inj.where}: {m}' if m else None


def lines_job(acc, o, data, size, part, parts, every=False):
    """interrupts at the first time each line is executed between two events visible outside (a
    read, a print), or at every time"""
    r, inj = traced(o.argv() + ['-f', str(size)], data, -1)
    if r.error or r.code != 0:
        acc.fail({'kind': 'line', 'n': -1, **dump.case_of(o, data), 'size': size}, f'{r.error or r.code}')
        return
    whole = rows_of(r.out)[0]
    moments = range(1, inj.count + 1) if every else sorted(inj.points.values())
    acc.counts['lines interrupted'] += len(moments[part::parts])
    for n in moments[part::parts]:
        m = line_fault(acc, o, data, size, n, r.out, whole)
        if m:
            acc.fail({'kind': 'line', 'n': n, **dump.case_of(o, data), 'size': size}, m)
            if acc.full:
                return


# ------------------------------------------------------------------ output closed

def closed_output(o, take, endless, size):
    """the reader of the output takes `take` bytes and leaves"""
    env = dict(os.environ, PYTHONPATH=sut.REPO, PYTHONUTF8='1', COLUMNS='80', PYTHONDONTWRITEBYTECODE='1')
    argv = [sys.executable, '-W', 'ignore', '-m', 'kolombos', *o.argv()]
    block = b'line \x1b[31mred\x1b[m \xc3\xa9\xff\x01\n'
    p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                         cwd=engine.scratch())
    import signal
    import threading
    err = []
    te = threading.Thread(target=lambda: err.append(p.stderr.read()), daemon=True)
    te.start()
    fed = [0]

    def feed():
        try:
            while endless or fed[0] < size:
                p.stdin.write(block)
                fed[0] += len(block)
            p.stdin.close()
        except (OSError, ValueError):
            pass
    if take == 0:
        p.stdout.close()
    tf = threading.Thread(target=feed, daemon=True)
    tf.start()
    got = b''
    if take:
        while len(got) < take:
            piece = p.stdout.read1(take - len(got))
            if not piece:
                break
            got += piece
        p.stdout.close()
    try:
        code = p.wait(90)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return 'goes on after the reader of its output has gone (stopped after 90 s)'
    finally:
        try:
            p.stdin.close()
        except OSError:
            pass
    te.join(10)
    e = (err or [b''])[0]
    if b'Traceback' in e or b'Exception ignored' in e:
        return f'exit code {code}; on standard error: {e[-300:]!r}'
    if len(got) < take and not endless and take < size:
        return f'only {len(got)} bytes of output'
    return None


# ------------------------------------------------------------------ output that fails

OUT_FAULTS = {'full': lambda: OSError(28, 'No space left on device'), 'pipe': lambda: BrokenPipeError(32, 'Broken pipe')}


def out_fault(acc, o, data, size, n, kind):
    """the n-th write to the output fails and all the next ones"""
    a, whole = full(o, data, size)
    acc.traces += 1
    out = sut.BrokenOut(n, OUT_FAULTS[kind]())
    try:
        r = sut.run_app(o.argv() + ['-f', str(size)], data, stdout=out)
    finally:
        out.done()
        sut.forget_buffers()
    key = (tuple(o.argv()), data, size, 'write')
    acc.state((key, n))
    acc.transition(key, n, kind)
    acc.outcome(('write', r.code, out.failures))
    if not out.failures:
        return None
    if r.error:
        return f'not handled: {r.error}'
    if not isinstance(r.code, int) or r.code == 0:
        return f'exit code {r.code} although the output is not complete'
    if not a.out.startswith(r.out):
        return f'what was written before the failure is not the beginning of the undisturbed dump: {r.out[-80:]!r}'
    if out.failures > 8:
        return f'{out.failures} more attempts at writing'
    if 'Traceback' in r.err:
        return 'traceback without --debug'
    if kind == 'pipe':
        return f'complains although the reader of the output has left: {r.err[-200:]!r}' if r.err else None
    err = term.SGR_RE.sub('', r.err)
    if err.count('No space left on device') != 1 or 'OSError' not in err:
        return f'the error is not named once: {r.err!r}'
    return None


def writes_of(o, data, size):
    out = sut.BrokenOut(0, None)
    sut.run_app(o.argv() + ['-f', str(size)], data, stdout=out)
    sut.forget_buffers()
    return out.writes


def encoded(acc, o, data, encoding):
    """an output that cannot represent all the characters"""
    import io
    a, whole = full(o, data, 4096)
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding=encoding, write_through=True)
    out.getvalue = lambda: raw.getvalue().decode(encoding)
    acc.traces += 1
    r = sut.run_app(o.argv() + ['-f', '4096'], data, stdout=out)
    sut.forget_buffers()
    acc.state((tuple(o.argv()), data, encoding))
    acc.transition((tuple(o.argv()), data, encoding))
    try:
        a.out.encode(encoding)
        possible = True
    except UnicodeEncodeError:
        possible = False
    acc.outcome((encoding, possible, r.code))
    if r.error:
        return f'not handled: {r.error}'
    if 'Traceback' in r.err:
        return 'traceback without --debug'
    if possible:
        return None if (r.out, r.code, r.err) == (a.out, 0, '') else f'exit code {r.code}, {r.err[-200:]!r}, other output'
    if r.code == 0:
        # characters replaced by others is fine as well
        return None if len(term.SGR_RE.sub('', r.out)) >= len(term.SGR_RE.sub('', a.out)) else 'part of the output is missing'
    if 'encode' not in r.err:
        return f'the error is not named: {r.err!r}'
    return None


def full_device(m, size):
    """real process writing to a device that is full"""
    env = dict(os.environ, PYTHONPATH=sut.REPO, PYTHONUTF8='1', COLUMNS='80', PYTHONDONTWRITEBYTECODE='1')
    argv = [sys.executable, '-W', 'ignore', '-m', 'kolombos', *(MODES[m].argv() if m >= 0 else [['--legend'], ['--version']][m])]
    with open('/dev/full', 'wb') as f:
        p = subprocess.run(argv, input=b'line \x1b[31mred\x1b[m\n' * (size // 14), stdout=f, stderr=subprocess.PIPE, env=env,
                           cwd=engine.scratch(), timeout=300)
    if p.returncode == 0:
        return 'exit code 0 although nothing could be written'
    if b'Traceback' in p.stderr or b'Exception ignored' in p.stderr:
        return f'exit code {p.returncode}; on standard error: {p.stderr[-300:]!r}'
    if p.stderr.count(b'No space left') != 1:
        return f'the error is not named once: {p.stderr[-300:]!r}'
    return None


LINE_DOCS = [b'ab\n', b'a\x1b[31mb\nc', b'\x1b[1;38;5;9mx\x1b[m\n\n', 'é€\n𝄞'.encode(), b'\x00\x01 \t\r\n\x1b', b'\xff\xfe\nq\x7f',
             b'\x1b(B\x1bM\x1b[2J.', b'one\ntwo\nthree', b'\x1b[38;2;1;2;3mz']


def jobs(tier):
    q = tier == 'quick'
    out = []
    n = len(corpus.UNITS)
    for m in range(len(MODES)):
        for a in range(0, n, 3):
            out.append(('pairs', m, a, a + 3, [1, 3] if q else [1, 2, 3, 4, 5], q))
        out.append(('docs', m, [3, 16] if q else [1, 2, 3, 5, 16]))
        if not q:
            for a in range(len(corpus.UNITS_SMALL)):
                out.append(('triples', m, a, [1, 2, 3]))
    for m in (0, 2, 4) if q else range(5):
        for i in range(len(LINE_DOCS)):
            for part in range(4):
                out.append(('lines', m, i, 3 if i % 2 else 64, part, 4, not q))
        if not q:
            for a in range(n):
                out.append(('linepairs', m, a))
    for m in (0, 2, 3):
        for take in (0, 1, 100, 5000, 8191, 8192, 65536, 100000):
            out.append(('closed', m, take, take % 2 == 0))
    for m in (0, 2):
        out.append(('closed-small', m))
    for m in range(len(MODES)):
        for a in range(0, n, 12):
            out.append(('write', m, a, a + 12, q))
        out.append(('encoding', m))
        out.append(('full', m))
    out += [('full', -1), ('full', -2)]
    return out


def read_job(acc, o, data, sizes):
    for size in sizes:
        reads = -(-len(data) // size) + 1
        for k in range(1, reads + 1):
            for kind in FAULTS:
                if kind == 'dir' and k > 1:
                    continue
                m = read_fault(acc, o, data, size, k, kind)
                if m:
                    acc.fail({'kind': kind, 'k': k, 'size': size, **dump.case_of(o, data)}, m)
                    if acc.full:
                        return False
    return True


def run(job, acc):
    kind, m = job[:2]
    o = MODES[m]
    if kind == 'write':
        docs = [u + v for u in corpus.UNITS[job[2]:job[3]] for v in ([b'\nb\xc3'] if job[4] else [b'', *corpus.UNITS_SMALL])]
        if job[2] == 0:
            docs += LINE_DOCS + [d for d in plans.DOCS if len(d) < 300]
        for d in docs:
            for size in (3, 4096):
                for n in range(1, writes_of(o, d, size) + 1):
                    for k in OUT_FAULTS:
                        msg = out_fault(acc, o, d, size, n, k)
                        if msg:
                            acc.fail({'kind': 'write', 'n': n, 'fault': k, **dump.case_of(o, d), 'size': size}, msg)
                            if acc.full:
                                return
        return
    if kind == 'encoding':
        for oo in (o, o.replace(no_line_numbers=True)):
            for d in [b'', b'abc', b'a b', *corpus.UNITS, *LINE_DOCS, *[d for d in plans.DOCS if len(d) < 300]]:
                for enc in ('ascii', 'latin-1', 'cp1252', 'cp437', 'utf-8', 'koi8-r'):
                    msg = encoded(acc, oo, d, enc)
                    if msg:
                        acc.fail({'kind': 'encoding', 'encoding': enc, **dump.case_of(oo, d)}, msg)
                        if acc.full:
                            return
        return
    if kind == 'full':
        for size in (0, 28, 8000, 200000) if m >= 0 else (0,):
            acc.traces += 1
            acc.state(('full', m, size))
            acc.transition('full', m, size)
            msg = full_device(m, size)
            if msg:
                acc.fail({'kind': 'full', 'mode': m, 'size': size}, msg)
        return
    if kind == 'pairs':
        for u in corpus.UNITS[job[2]:job[3]]:
            for v in [b''] + (corpus.UNITS_SMALL if job[5] else corpus.UNITS):
                if not read_job(acc, o, u + v, job[4]):
                    return
    elif kind == 'triples':
        for v in corpus.UNITS_SMALL:
            for w in corpus.UNITS_SMALL:
                if not read_job(acc, o, corpus.UNITS_SMALL[job[2]] + v + w, job[3]):
                    return
    elif kind == 'docs':
        for d in plans.DOCS:
            if len(d) < 300 and not read_job(acc, o, d, job[2]):
                return
    elif kind == 'lines':
        lines_job(acc, o, LINE_DOCS[job[2]], job[3], job[4], job[5], job[6])
    elif kind == 'linepairs':
        for v in corpus.UNITS_SMALL:
            lines_job(acc, o, corpus.UNITS[job[2]] + b'\n' + v, 3, 0, 1)
    else:
        todo = [(job[2], job[3], 200000)] if kind == 'closed' else [(0, False, 20), (0, False, 0), (1, False, 20)]
        for take, endless, size in todo:
            acc.traces += 1
            acc.state(('closed', m, take, endless, size))
            acc.transition('closed', m, take, endless, size)
            msg = closed_output(o, take, endless, size)
            if msg:
                acc.fail({'kind': 'closed', 'mode': m, 'take': take, 'endless': endless, 'size': size}, msg)
    acc.sample({'mode': o.argv(), 'job': repr(job)})


def check(case):
    if case['kind'] == 'closed':
        m = closed_output(MODES[case['mode']], case['take'], case['endless'], case['size'])
        return f'{MODES[case["mode"]].argv()}, output closed after {case["take"]} bytes, endless={case["endless"]}: {m}' \
            if m else None
    if case['kind'] == 'full':
        m = full_device(case['mode'], case['size'])
        return f'mode {case["mode"]}, {case["size"]} bytes, output to a full device: {m}' if m else None
    o = dump.opts_of(case)
    data = bytes.fromhex(case['data'])
    if case['kind'] == 'write':
        m = out_fault(Acc(), o, data, case['size'], case['n'], case['fault'])
        m = m and f'write {case["n"]} fails ({case["fault"]}): {m}'
    elif case['kind'] == 'encoding':
        m = encoded(Acc(), o, data, case['encoding'])
        m = m and f'output encoded as {case["encoding"]}: {m}'
    elif case['kind'] == 'line':
        a, whole = full(o, data, case['size'])
        m = line_fault(Acc(), o, data, case['size'], case['n'], a.out, whole)
    else:
        m = read_fault(Acc(), o, data, case['size'], case['k'], case['kind'])
        m = m and f'read {case["k"]} of {case["size"]} bytes each fails ({case["kind"]}): {m}'
    return f'{dump.describe_case(case)}: {m}' if m else None
