"""C34: a file is dumped the same whatever it is called and whatever it is."""
import fcntl
import itertools
import os
import pty
import re
import socket
import stat
import subprocess
import sys
import tempfile
import termios
import tty

from .. import engine, plans, sut, term
from ..ref import Opts

ID = 'C34'
TECHNIQUE = ('exhaustive enumeration of file names over an alphabet of special bytes and of kinds of files x debug levels x modes, on '
             'the real application and a real file system; oracle: the run on a plain file with a plain name, and on standard input')
LEVEL_NOTE = ('all 1-byte names, all words <= 2 of 26 special pieces, lengths to 255, existing and missing and surplus, x debug levels 0..4; '
              'regular files, pipes, terminals, devices, links x levels x 6 modes x 23 documents, pipes in pieces; 8 kinds of failures x levels x modes')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, 3-piece names of 14 pieces, 2-byte names of all bytes, pieces of 6 bytes'}
STATE = '(name or kind of the file, debug level, mode); a transition extends the name by a piece, or is a delivery of input'
ASSUMPTIONS = ['file system does not change while a file is being read, other than described']

PLAIN = 'plain-name'
PIECES = [b'\x1b', b'[31m', b'\n', b'\r', b'\t', b'\x07', b'\x7f', b'\xc2\x9b', b'\xff', b'\xc3', 'é'.encode(), '日'.encode(),
          '\u202e'.encode(), '\u0301'.encode(), '\U0001f600'.encode(), b' ', b'-', b'--', b'~', b'%s', b'{0}', b'\\', b"'", b'"', b'.', b'a']
SMALL = PIECES[:3] + PIECES[5:12] + PIECES[15:17] + PIECES[19:20] + PIECES[-1:]
MODES = [Opts(), Opts(binary=True), Opts(marker=2), Opts(binary=True, columns=5, decode=True), Opts(max_lines=1),
         Opts(binary=True, max_bytes=3, decimal=True)]


class inside:
    """a fresh directory as the current one"""
    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(dir=engine.scratch())
        os.chdir(self.dir)

    def __exit__(self, *a):
        os.chdir(self.old)
        subprocess.run(['rm', '-rf', self.dir])


def launch(argv, level, name, data=b'never read'):
    return sut.run_app([*argv, *(['-' + 'D' * level] if level else []), '--', name], data, cpu=120)


def unsafe(s):
    """what of a text cannot be displayed or should not be"""
    m = term.UNSAFE_RE.search(term.SGR_RE.sub('', s))
    if m:
        return f'{m.group()!r} gets to the terminal'
    try:
        s.encode('utf-8')
    except UnicodeEncodeError as e:
        return str(e)
    return None


def content(r):
    return re.sub(r'0x[0-9a-f]{9,}', '0x', r.out)


def compare(what, name, a, b):
    """b: run on `name`, a: run on the plain name; they differ in the name at most"""
    if (b.error, b.code, b.err) != (a.error, a.code, a.err):
        return f'{what}: {b.code}, {b.error}, {b.err[-300:]!r} instead of {a.code}, {a.error}'
    m = unsafe(b.out)
    if m:
        return f'{what}: {m}'
    x, y = term.parse(a.out).rows, term.parse(b.out).rows
    if len(x) != len(y):
        return f'{what}: {len(y)} rows instead of {len(x)}'
    for p, q in zip(x, y):
        i = p.text.find(PLAIN)
        if i < 0:
            if p.cells != q.cells or p.eol != q.eol:
                return f'{what}: {q.text!r} instead of {p.text!r}'
            continue
        rest = len(p.cells) - i - len(PLAIN)
        if q.cells[:i] != p.cells[:i] or q.cells[len(q.cells) - rest:] != p.cells[len(p.cells) - rest:]:
            return f'{what}: {q.text!r} is not like {p.text!r}'
        mine = q.cells[i:len(q.cells) - rest]
        if {s for _, s in mine} != {s for _, s in p.cells[i:i + len(PLAIN)]}:
            return f'{what}: style of the name in {q.text!r}'
        t = ''.join(c for c, _ in mine)
        if name.isprintable() and t != name or not t:
            return f'{what}: the file is called {t!r} in {q.text!r}'
    return None


_ref = {}


def plain(o, level, data):
    key = (tuple(o.argv()), level, data)
    r = _ref.get(key)
    if r is None:
        if len(_ref) > 200:
            _ref.clear()
        with inside():
            with open(PLAIN, 'wb') as f:
                f.write(data)
            r = _ref[key] = launch(o.argv(), level, PLAIN)
    return r


DATA = 'a\x1b[1;31mb\x1b[m é\n\x07\n'.encode() + b'\xff\xfe\n'


def named(name, level, o, data=DATA):
    """an existing file of that name (in the current directory)"""
    what = f'{o.argv()} on level {level}, file {name!r}'
    a = plain(o, level, data)
    with open(os.fsencode(name), 'wb') as f:
        f.write(data)
    try:
        b = launch(o.argv(), level, name)
    finally:
        os.unlink(os.fsencode(name))
    return compare(what, name, a, b)


def missing(name, level, o):
    what = f'{o.argv()} on level {level}, missing file {name!r}'
    r = launch(o.argv(), level, name)
    if r.error or r.code != 1 or r.inp.taken:
        return f'{what}: {r.code}, {r.error}, {r.inp.taken} bytes of standard input taken'
    m = unsafe(r.out) or unsafe(r.err)
    if m:
        return f'{what}: {m}'
    plain = term.SGR_RE.sub('', r.err)
    if 'FileNotFoundError' not in plain or 'ERROR' not in plain or plain.count('\n') != 1:
        return f'{what}: message {r.err!r}'
    if name.isprintable() and name not in plain and repr(name)[1:-1] not in plain:
        return f'{what}: message {r.err!r} does not name it'
    if ('Traceback' in r.out) != (level > 0):
        return f'{what}: {"no " if level else ""}traceback'
    return None


def surplus(name, level):
    """usage errors which quote what was given"""
    for argv in ([PLAIN, name], ['-w', name], ['--' + name], ['-m' + name], ['--focus-' + name], ['-Z' + name]):
        what = f'{argv} on level {level}'
        r = sut.run_app([*(['-' + 'D' * level] if level else []), *argv], b'')
        if r.error or r.code not in (0, 1, 2) or r.code == 0 and r.err or r.code == 1 and 'Error' not in r.err:
            return f'{what}: {r.code}, {r.error}, {r.err[-300:]!r}'
        m = unsafe(r.out) or unsafe(r.err)
        if m:
            return f'{what}: {m}'
        if argv[0] == PLAIN and not name.startswith('-') and (r.code != 2 or name.isprintable() and name not in r.err):
            return f'{what}: message {r.err!r} does not quote it'
        if r.code == 2 and 'usage' not in r.err.lower():
            return f'{what}: message {r.err!r}'
    return None


# ------------------------------------------------------------------ kinds of files

KINDS = ['regular', 'readonly', 'hardlink', 'symlink', 'chain', 'dirlink', 'absolute', 'dots', 'slashes', 'devfd', 'pipe', 'fifo',
         'tty', 'rawtty', 'deleted', 'append']


def kind_of(kind, data):
    """prepares the file in the current directory; returns its name and what to clean up"""
    def regular(name):
        with open(name, 'wb') as f:
            f.write(data)
        return name
    fds = []
    if kind == 'regular':
        return regular('f'), fds
    if kind == 'readonly':
        regular('f')
        os.chmod('f', 0o400)
        return 'f', fds
    if kind == 'hardlink':
        os.link(regular('f'), 'g')
        return 'g', fds
    if kind in ('symlink', 'chain'):
        os.symlink(regular('f'), 'g')
        if kind == 'chain':
            os.symlink('g', 'h')
        return 'h' if kind == 'chain' else 'g', fds
    if kind == 'dirlink':
        os.mkdir('d')
        regular('d/f')
        os.symlink('d', 'e')
        return 'e/f', fds
    if kind == 'absolute':
        return os.path.abspath(regular('f')), fds
    if kind == 'dots':
        os.mkdir('d')
        regular('f')
        return './d/../f', fds
    if kind == 'slashes':
        return './/' + regular('f'), fds
    if kind in ('devfd', 'deleted'):
        fds.append(os.open(regular('f'), os.O_RDONLY))
        if kind == 'deleted':
            os.unlink('f')
        return f'/dev/fd/{fds[0]}' if kind == 'devfd' else f'/proc/self/fd/{fds[0]}', fds
    if kind == 'append':
        fds.append(os.open(regular('f'), os.O_WRONLY | os.O_APPEND))
        return 'f', fds
    if kind == 'pipe':
        r, w = os.pipe()
        fcntl.fcntl(w, 1031, 1 << 20)                    # F_SETPIPE_SZ
        os.write(w, data)
        os.close(w)
        fds.append(r)
        return f'/dev/fd/{r}', fds
    if kind == 'fifo':
        os.mkfifo('p')
        pid = os.fork()
        if pid == 0:
            try:
                with open('p', 'wb', buffering=0) as f:
                    f.write(data)
            finally:
                os._exit(0)
        fds.append(-pid)
        return 'p', fds
    m, s = pty.openpty()
    fds += [m, s]
    if kind == 'tty':
        a = termios.tcgetattr(s)
        a[0] &= ~termios.ICRNL
        a[3] &= ~termios.ECHO
        termios.tcsetattr(s, termios.TCSANOW, a)
        # end of file is a key here; others may act as well
        os.write(m, b''.join(b'\x16' + bytes([c]) if c < 32 and c != 10 or c == 127 else bytes([c]) for c in data))
        os.write(m, (b'\x04' if not data or data.endswith(b'\n') else b'\x04\x04') + b'\x04\x04')
    else:
        tty.setraw(s)
        a = termios.tcgetattr(s)
        a[6][termios.VMIN], a[6][termios.VTIME] = 0, 0   # nothing more there = end of file
        termios.tcsetattr(s, termios.TCSANOW, a)
        os.write(m, data)
    return os.ttyname(s), fds


def release(fds):
    for fd in fds:
        if fd < 0:
            os.waitpid(-fd, 0)
        else:
            os.close(fd)


def fits(kind, data):
    return len(data) < 1000 or kind in ('regular', 'pipe', 'fifo')


def of_kind(kind, level, o, data, buffer=None):
    argv = o.argv() + ([f'-f{buffer}'] if buffer else [])
    what = f'{argv} on level {level}, {kind} with {len(data)} bytes {data[:20]!r}'
    a = sut.run_app([*argv, *(['-' + 'D' * level] if level else [])], data, cpu=120)
    with inside():
        name, fds = kind_of(kind, data)
        before = os.stat(name) if kind in KINDS[:9] else None
        opened = set(os.listdir('/proc/self/fd'))
        try:
            b = launch(argv, level, name)
            left = len(set(os.listdir('/proc/self/fd')) - opened) - 0
        finally:
            release(fds)
        if before:
            after = os.stat(name)
            if (before.st_mtime_ns, before.st_mode, before.st_size) != (after.st_mtime_ns, after.st_mode, after.st_size):
                return f'{what}: the file was changed'
    if b.error or b.code != 0 or b.err:
        return f'{what}: {b.code}, {b.error}, {b.err[-300:]!r}'
    if b.inp.taken:
        return f'{what}: standard input was read as well'
    if left > 0:
        return f'{what}: files are left open'
    if level == 0:
        return None if b.out == a.out else f'{what}: {b.out[:300]!r} instead of {a.out[:300]!r}'
    x, y = dumped(a.out), dumped(b.out)
    return None if x == y else f'{what}: {y[:6]} instead of {x[:6]}'


ABOUT = re.compile('Opened file|Reading from stdin|Current position|filename│')


def dumped(out):
    return [r.text for r in term.parse(out).rows if not ABOUT.search(r.text)]


def delivered(pieces, level, o):
    """a pipe whose writer is slow: pieces are written one by one, each after the reader waits for it"""
    data = b''.join(pieces)
    argv = o.argv()
    what = f'{argv} on level {level}, pipe delivering {pieces}'
    a = sut.run_app([*argv, *(['-' + 'D' * level] if level else [])], data)
    with inside():
        os.mkfifo('p')
        pid = os.fork()
        if pid == 0:
            try:
                fd = os.open('p', os.O_WRONLY)
                for p in pieces:
                    os.write(fd, p)
                    while fionread(fd):
                        os.sched_yield()
            finally:
                os._exit(0)
        try:
            b = launch(argv, level, 'p')
        finally:
            os.waitpid(pid, 0)
    if b.error or b.code != 0 or b.err:
        return f'{what}: {b.code}, {b.error}, {b.err[-300:]!r}'
    return None if dumped(a.out) == dumped(b.out) else f'{what}: {b.out[:300]!r} instead of {a.out[:300]!r}'


def fionread(fd):
    buf = bytearray(4)
    fcntl.ioctl(fd, termios.FIONREAD, buf)
    return int.from_bytes(buf, sys.byteorder)


# ------------------------------------------------------------------ failures

FAILURES = {'missing': 'FileNotFoundError', 'directory': 'IsADirectoryError', 'dirslash': 'IsADirectoryError', 'notdir': 'NotADirectoryError',
            'loop': 'OSError', 'dangling': 'FileNotFoundError', 'long': 'OSError', 'socket': 'OSError'}


def failing(kind, level, o):
    what = f'{o.argv()} on level {level}, {kind}'
    with inside():
        name = 'f'
        sock = None
        if kind == 'directory':
            os.mkdir('f')
        elif kind == 'dirslash':
            name = './'
        elif kind == 'notdir':
            open('f', 'w').close()
            name = 'f/g'
        elif kind == 'loop':
            os.symlink('f', 'f')
        elif kind == 'dangling':
            os.symlink('g', 'f')
        elif kind == 'long':
            name = 'f' * 256
        elif kind == 'socket':
            sock = socket.socket(socket.AF_UNIX)
            sock.bind('f')
        try:
            r = launch(o.argv(), level, name)
        finally:
            if sock:
                sock.close()
        before = sorted(os.listdir('.'))
    if r.error or r.code != 1 or r.inp.taken:
        return f'{what}: {r.code}, {r.error}'
    err = term.SGR_RE.sub('', r.err)
    if f'{FAILURES[kind]}: ' not in err or name not in err or err.count('\n') != 1 or unsafe(r.err) or unsafe(r.out):
        return f'{what}: message {r.err!r}'
    if ('Traceback' in r.out) != (level > 0):
        return f'{what}: {"no " if level else ""}traceback'
    if kind in ('missing', 'dangling') and before != (['f'] if kind == 'dangling' else []):
        return f'{what}: files appeared: {before}'
    s = term.parse(r.out)
    if s.final != term.DEFAULT:
        return f'{what}: {term.show(s.final)} in the end'
    return None


DENIED = '''
import os, sys
os.setgid(65534); os.setuid(65534)
sys.argv = sys.argv[1:]
from kolombos.app import App
App().run()
'''


def denied(level, o):
    """a file that may not be read; by a real process without privileges"""
    what = f'{o.argv()} on level {level}, unreadable file'
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, 'f')
        with open(path, 'wb') as f:
            f.write(b'secret\n')
        os.chmod(path, 0)
        env = dict(os.environ, PYTHONPATH=sut.REPO, PYTHONUTF8='1', COLUMNS='80', PYTHONDONTWRITEBYTECODE='1')
        if os.getuid() != 0:
            return None
        # imports first, as the repository itself may be out of reach without privileges
        code = DENIED.replace('os.setgid', 'import kolombos.app\nos.setgid', 1)
        os.chmod(d, 0o755)
        r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code, 'kolombos', *o.argv(), *(['-' + 'D' * level] if level else []),
                            path], capture_output=True, env=env, timeout=120, stdin=subprocess.DEVNULL, cwd=d)
    finally:
        subprocess.run(['rm', '-rf', d])
    err = term.SGR_RE.sub('', r.stderr.decode('utf-8', 'replace'))
    if r.returncode != 1 or 'PermissionError' not in err or path not in err or 'Traceback' in err or b'secret' in r.stdout:
        return f'{what}: exit code {r.returncode}, {err[-300:]!r}, {r.stdout[-200:]!r}'
    return None


# ------------------------------------------------------------------ jobs

def names(tier):
    out = {os.fsdecode(bytes([b])) for b in range(1, 256) if b != 0x2f}
    for k in (1, 2):
        for w in itertools.product(PIECES, repeat=k):
            out.add(os.fsdecode(b''.join(w)))
    for n in (2, 80, 81, 254, 255):
        out.add('x' * n)
        out.add(os.fsdecode(('é' * n).encode()[:n]))
    if tier != 'quick':
        for w in itertools.product(SMALL, repeat=3):
            out.add(os.fsdecode(b''.join(w)))
        for a in range(1, 256):
            for b in range(1, 256):
                if 0x2f not in (a, b):
                    out.add(os.fsdecode(bytes([a, b])))
    return sorted(out - {'.', '..', '-'})


DOCS = plans.DOCS + ['é'.encode() * 1600 + b'z' * 900, b'lines of text\n' * 300, b'x' * 4096 + b'\n', b'y' * 70000]


def compositions(data):
    n = len(data)
    for mask in range(1 << (n - 1)):
        out, a = [], 0
        for i in range(1, n):
            if mask >> (i - 1) & 1:
                out.append(data[a:i])
                a = i
        yield out + [data[a:]]


PIECED = [b'a\nb\xc3\xa9', b'\x1b[1mx', b'\xe2\x82\xac\xff\n']
STEP = 40


def jobs(tier):
    q = tier == 'quick'
    n = len(names(tier))
    out = [('names', tier, a) for a in range(0, n, STEP)]
    out += [('kind', k, i) for k in KINDS for i in range(len(MODES))]
    out += [('pieces', i, tier) for i in range(len(PIECED))]
    out += [('failing', k) for k in FAILURES]
    out += [('denied',)]
    return out


def note(acc, case, m):
    acc.traces += 1
    if m:
        acc.fail(case, m)
    return not acc.full


def opts_of(i):
    return MODES[i]


def run(job, acc):
    kind = job[0]
    if kind == 'names':
        with inside():
            for name in names(job[1])[job[2]:job[2] + STEP]:
                for level in range(5):
                    acc.state((name, level))
                    acc.transition(name[:-1], (name[-1:], level))
                    acc.outcome((level, name.isprintable()))
                    for i in (0, 1):
                        if not note(acc, {'name': name, 'level': level, 'mode': i}, named(name, level, MODES[i])):
                            return
                        if not note(acc, {'missing': name, 'level': level, 'mode': i}, missing(name, level, MODES[i])):
                            return
                    if not note(acc, {'surplus': name, 'level': level}, surplus(name, level)):
                        return
    elif kind == 'kind':
        for level in range(5):
            for i, o in [(job[2], MODES[job[2]])]:
                for j, d in enumerate(DOCS):
                    if not fits(job[1], d) or len(d) > 3000 and (level or i > 1 or i and len(d) > 9000):
                        continue
                    acc.state((job[1], level, i, j))
                    acc.outcome((level, i, j))
                    for buffer in (None, 1, 3) if len(d) < 20 else (None,):
                        if not note(acc, {'kind': job[1], 'level': level, 'mode': i, 'data': d.hex(), 'buffer': buffer},
                                    of_kind(job[1], level, o, d, buffer)):
                            return
    elif kind == 'pieces':
        for p in compositions(PIECED[job[1]]):
            for level in (0, 3):
                for i in (0, 1, 3):
                    acc.state((tuple(p), level, i))
                    acc.transition(tuple(p[:-1]), p[-1])
                    if not note(acc, {'pieces': [x.hex() for x in p], 'level': level, 'mode': i}, delivered(p, level, MODES[i])):
                        return
    elif kind == 'failing':
        for level in range(5):
            for i, o in enumerate(MODES):
                acc.state((job[1], level, i))
                acc.outcome(job[1])
                if not note(acc, {'failing': job[1], 'level': level, 'mode': i}, failing(job[1], level, o)):
                    return
    else:
        for level in range(5):
            for i in (0, 1):
                acc.state(('denied', level, i))
                if not note(acc, {'denied': level, 'mode': i}, denied(level, MODES[i])):
                    return
    acc.sample([repr(x) for x in job])


def check(case):
    o = MODES[case.get('mode', 0)]
    if 'kind' in case:
        return of_kind(case['kind'], case['level'], o, bytes.fromhex(case['data']), case['buffer'])
    if 'pieces' in case:
        return delivered([bytes.fromhex(x) for x in case['pieces']], case['level'], o)
    if 'failing' in case:
        return failing(case['failing'], case['level'], o)
    if 'denied' in case:
        return denied(case['denied'], o)
    with inside():
        if 'surplus' in case:
            return surplus(case['surplus'], case['level'])
        if 'missing' in case:
            return missing(case['missing'], case['level'], o)
        return named(case['name'], case['level'], o)
