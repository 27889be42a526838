"""C35: of everything around, the output depends on the width of the terminal only."""
import fcntl
import itertools
import os
import pty
import re
import select
import struct
import subprocess
import sys
import termios
import tty

from .. import engine, sut

ID = 'C35'
TECHNIQUE = ('exhaustive enumeration of widths of a real terminal and of pairs of conditions around a run (variables, standard streams, '
             'current directory, interpreter), on real processes; oracle: the plain run with the width that is in force')
LEVEL_NOTE = ('terminals of 1..200 columns and four large ones x 4 command lines; all values of 28 conditions (~90 values) x 7 command '
              'lines, all pairs of values of two conditions x 1 command line, streams and widths x 5 (thorough: all x 5)')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': LEVEL_NOTE}
STATE = '(conditions which are not the usual ones, command line); a transition changes one condition'
ASSUMPTIONS = ['python encodes its output in UTF-8', 'locales and variables enumerated stand for the others']

DATA = ('ab\x1b[1;31mc\x1b[m é€𝄞\n\x07\x00\x7f one two three\n' * 3).encode() + b'\xff\xfe\x80\n\n tail'
COMMANDS = [['-b'], ['--help'], ['-D'], [], ['-b', '-w5', '-d', '-m2'], ['--legend'], ['--version'], ['--demo'], ['-x'], ['missing']]
USES_FILE = (0, 2, 3, 4)                 # the others take no file and do not read standard input

# every condition: its values, the usual one first; None: the variable is not set
CONDITIONS = {
    'COLUMNS': ['80', '33', '131', '0', '-5', '', 'wide', '9.5', None],
    'LINES': [None, '1', '0', 'x'],
    'stdout': ['pipe', 'file', 'tty90', 'tty0', 'rw90'],
    'stderr': ['pipe', 'tty40', 'file'],
    'stdin': ['empty', 'tty40', 'full', 'closed'],
    'cwd': ['scratch', '/', 'deleted'],
    'umask': ['022', '777', '0'],
    'TERM': [None, '', 'dumb', 'linux', 'vt100', 'xterm', 'xterm-256color', 'xterm-direct', 'screen', 'no-such'],
    'COLORTERM': [None, 'truecolor', 'no'],
    'NO_COLOR': [None, '', '1'],
    'CLICOLOR': [None, '0'],
    'CLICOLOR_FORCE': [None, '1'],
    'FORCE_COLOR': [None, '0', '3'],
    'LANG': [None, '', 'C', 'POSIX', 'en_US.UTF-8', 'de_DE.ISO-8859-1', 'ru_RU.KOI8-R', 'tr_TR.UTF-8', 'no-such'],
    'LC_ALL': [None, 'C', 'C.UTF-8', 'ja_JP.eucJP'],
    'LC_NUMERIC': [None, 'de_DE.UTF-8'],
    'LANGUAGE': [None, 'de:ru'],
    'HOME': ['/root', None, '/no-such', ''],
    'PATH': ['/usr/bin:/bin', None, ''],
    'TZ': [None, 'Asia/Tokyo'],
    'PAGER': [None, 'false'],
    'DEBUG': [None, '1', '4'],
    'KOLOMBOS_DEBUG': [None, '4'],
    'PYTHONHASHSEED': ['0', '1', '2', '3', '77', 'random'],
    'PYTHONOPTIMIZE': [None, '1', '2'],
    'PYTHONUNBUFFERED': [None, '1'],
    'PYTHONMALLOC': [None, 'debug'],
    'PYTHONFAULTHANDLER': [None, '1'],
}
STREAMS = ('stdout', 'stderr', 'stdin', 'cwd', 'umask')
WIDTHS = [*range(1, 201), 255, 256, 1000, 32767]


def cache():
    return os.path.join(engine.scratch(), 'pyc')


def document():
    path = os.path.join(engine.scratch(), 'c35.bin')
    if not os.path.exists(path):
        with open(path + '~', 'wb') as f:
            f.write(DATA)
        os.rename(path + '~', path)
    return path


def terminal(columns):
    m, s = pty.openpty()
    tty.setraw(s)
    fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack('HHHH', 24 if columns else 0, columns, 0, 0))
    return m, s


def launch(cmd, conditions, data=None):
    """the run under conditions other than usual; returns (exit code, standard output, standard error)"""
    c = {k: conditions.get(k, v[0]) for k, v in CONDITIONS.items()}
    env = {k: v for k, v in c.items() if k not in STREAMS and v is not None}
    env.update(PYTHONPATH=sut.REPO, PYTHONPYCACHEPREFIX=cache())
    argv = [sys.executable, '-W', 'ignore', '-m', 'kolombos', *COMMANDS[cmd]]
    if data is None and cmd in USES_FILE:
        argv.append(document())
    fds, reading, close_in_child = [], {}, c['stdin'] == 'closed'
    cwd = {'/': '/'}.get(c['cwd'], engine.scratch())

    def output(kind, which):
        if kind == 'pipe':
            r, w = os.pipe()
        elif kind == 'file':
            path = os.path.join(engine.scratch(), f'c35.{which}')
            w = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            reading[which] = path
            fds.append(w)
            return w
        else:
            r, w = terminal(int(re.sub(r'\D', '', kind)))
        fds.append(w)
        reading[which] = r
        return w
    out, err = output(c['stdout'], 1), output(c['stderr'], 2)
    if c['stdin'].startswith('tty'):
        m, s = terminal(int(c['stdin'][3:]))
        keep, fds = [m], fds + [s]
    else:
        text = data if data is not None else b'never read\n' if c['stdin'] == 'full' else b''
        s, w = os.pipe()
        os.write(w, text)
        os.close(w)
        keep, fds = [], fds + [s]

    def prepare():
        if c['stdout'].startswith('rw'):           # the terminal is standard input and output at once
            os.dup2(1, 0)
        if c['cwd'] == 'deleted':
            d = os.path.join(engine.scratch(), f'gone-{os.getpid()}')
            os.mkdir(d)
            os.chdir(d)
            os.rmdir(d)
        os.umask(int(c['umask'], 8))
        if close_in_child:
            os.close(0)
    p = subprocess.Popen(argv, stdin=s, stdout=out, stderr=err, env=env, cwd=cwd, preexec_fn=prepare)
    for fd in fds:
        os.close(fd)
    got = {1: b'', 2: b''}
    left = {fd: n for n, fd in reading.items() if isinstance(fd, int)}
    while left:
        ready = select.select(list(left), [], [], 100)[0]
        if not ready:
            p.kill()
            break
        for fd in ready:
            try:
                piece = os.read(fd, 65536)
            except OSError:
                piece = b''                        # the other side of a terminal has gone
            if piece:
                got[left[fd]] += piece
            else:
                del left[fd]
    code = p.wait()
    for n, fd in reading.items():
        if isinstance(fd, int):
            os.close(fd)
        else:
            with open(fd, 'rb') as f:
                got[n] = f.read()
            os.unlink(fd)
    for fd in keep:
        os.close(fd)
    return code, got[1], got[2]


def width(conditions):
    v = conditions.get('COLUMNS', '80')
    if v and v.isdigit() and int(v) > 0:
        return v
    m = re.search(r'[1-9]\d*$', conditions.get('stdout', ''))
    return m.group() if m else '80'


_plain = {}


HELP = 1                                 # styled in terminals only


def plain(cmd, w, conditions={}):
    at_terminal = cmd == HELP and conditions.get('stdout', '')[-1:].isdigit()
    key = (cmd, w, at_terminal)
    if key not in _plain:
        _plain[key] = launch(cmd, {'COLUMNS': w, **({'stdout': 'tty0'} if at_terminal else {})})
    return _plain[key]


def words(out):
    return re.sub(rb'\x1b\[[0-9;]*m', b'', out).split()


def usual(cmd, w):
    """the plain run is the run in process, i.e. the one that other properties decide"""
    code, out, err = plain(cmd, w)
    argv = COMMANDS[cmd] + ([document()] if cmd in USES_FILE else [])
    r = sut.run_app(argv, b'', columns=int(w))
    if (r.code or 0) != code or r.out.encode() != out or r.err.encode() != err:
        return f'{argv}, {w} columns: {code}, {out[:200]!r}, {err[:200]!r} in a process, {r.code}, {r.out[:200]!r}, {r.err[:200]!r} inside'
    if cmd == HELP:
        t = plain(cmd, w, {'stdout': 'tty0'})
        if t[0] != 0 or t[2] or words(t[1]) != words(out) or t[1].count(b'\x1b[') <= out.count(b'\x1b['):
            return f'{argv}, {w} columns: {t[0]}, {t[1][:500]!r}, {t[2][:200]!r} in a terminal'
    return None


def compare(cmd, conditions):
    what = f'{COMMANDS[cmd]} with {conditions}'
    a, b = plain(cmd, width(conditions), conditions), launch(cmd, conditions)
    if a == b:
        return None
    for name, x, y in zip(('exit code', 'standard output', 'standard error'), a, b):
        if x != y:
            if name == 'exit code':
                return f'{what}: {name} {y} instead of {x}; {b[2][-300:]!r}'
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            i = max(0, i - 20)
            return f'{what}: {name} from {i}: {y[i:i + 150]!r} instead of {x[i:i + 150]!r}'



def closed(which):
    """nothing to write to, or to read from"""
    path = document()
    for args, ok in ((['-b', path], which != 1), (['--version'], which != 1), ([], False)):
        if which == 2 and not args:
            continue
        env = dict(PYTHONPATH=sut.REPO, PYTHONPYCACHEPREFIX=cache(), COLUMNS='80')
        p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'kolombos', *args], stdin=subprocess.DEVNULL,
                           stdout=None if which == 1 else subprocess.PIPE, stderr=None if which == 2 else subprocess.PIPE,
                           env=env, timeout=100, preexec_fn=lambda: os.close(which))
        err = p.stderr or b''
        if (p.returncode == 0) != ok or b'Traceback' in err or ok and err or not ok and b'ERROR' not in err:
            return f'{args} with descriptor {which} closed: exit code {p.returncode}, {err[-300:]!r}'
    return None


def pairs():
    names = list(CONDITIONS)
    for a, b in itertools.combinations(names, 2):
        if {a, b} == {'stdout', 'stdin'}:
            continue
        for x, y in itertools.product(CONDITIONS[a][1:], CONDITIONS[b][1:]):
            yield {a: x, b: y}


def jobs(tier):
    q = tier == 'quick'
    out = [('usual',), ('closed',)]
    out += [('widths', cmd, WIDTHS[i::8]) for cmd in (0, 1, 2, 4) for i in range(8)]
    every = [{k: v} for k, vs in CONDITIONS.items() for v in vs[1:]]
    out += [('conditions', [[cmd, c] for c in every]) for cmd in range(len(COMMANDS))]
    both = list(pairs())
    # quick: a pair gets one command line of five, those about streams and widths, and all in thorough, get each of them
    near = {'COLUMNS', 'LINES', 'stdout', 'stderr', 'stdin', 'PYTHONOPTIMIZE'}
    work = [[cmd, c] for i, c in enumerate(both) for cmd in (range(5) if not q or set(c) <= near else (i % 5,))]
    out += [('conditions', work[i::64]) for i in range(64)]
    return out


def run(job, acc):
    if job[0] == 'usual':
        for cmd in range(len(COMMANDS)):
            for w in ('80', '90', '33', '131'):
                acc.traces += 1
                m = usual(cmd, w)
                if m:
                    acc.fail({'kind': 'usual', 'cmd': cmd, 'width': w}, m)
                    return
        return
    if job[0] == 'closed':
        for which in (0, 1, 2):
            acc.traces += 1
            acc.state(('closed', which))
            m = closed(which)
            if m:
                acc.fail({'kind': 'closed', 'which': which}, m)
        return
    for item in job[2] if job[0] == 'widths' else job[1]:
        cmd, c = (job[1], {'COLUMNS': None, 'stdout': f'tty{item}'}) if job[0] == 'widths' else item
        m = compare(cmd, c)
        acc.traces += 1
        key = tuple(sorted(c.items(), key=str))
        acc.state((cmd, key))
        for k in c:
            acc.transition(cmd, key, k)
        acc.outcome(hash(plain(cmd, width(c), c)))
        if m:
            acc.fail({'kind': 'conditions', 'cmd': cmd, 'conditions': c}, m)
            if acc.full:
                return
    acc.sample({'kind': 'conditions', 'cmd': cmd, 'conditions': c})


def check(case):
    k = case['kind']
    if k == 'usual':
        return usual(case['cmd'], case['width'])
    if k == 'closed':
        return closed(case['which'])
    return compare(case['cmd'], case['conditions'])
