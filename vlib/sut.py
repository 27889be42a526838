"""Driver: runs the real kolombos (imported from /repo) in this process.

Only the outermost seams of the application are used: the argument parser, the
settings holder, the runner factory, stdin/stdout. Nothing here looks at how the
pipeline in between is written.
"""
from __future__ import annotations

import copy
import io
import os
import signal
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import warnings
warnings.simplefilter('ignore')

os.environ['COLUMNS'] = '80'
os.environ['LINES'] = '25'


class SutTimeout(BaseException):
    """Raised inside the code under test when it used up its CPU budget."""


class SutFlood(BaseException):
    """Raised inside the code under test when it printed far too much."""


CPU_LIMIT = 10.0      # CPU seconds one run of the code under test may take, plus what grows with input
CPU_PER_BYTE = 0.02
OUT_LIMIT = 1 << 26   # chars one run may print


def _on_alarm(signum, frame):
    raise SutTimeout()


def install_watchdog():
    signal.signal(signal.SIGVTALRM, _on_alarm)


class guard:
    """CPU watchdog; virtual time, so a loaded machine does not matter."""
    def __init__(self, limit=None):
        self.limit = limit or CPU_LIMIT

    def __enter__(self):
        signal.setitimer(signal.ITIMER_VIRTUAL, self.limit)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False


class CapIO(io.StringIO):
    """stdout stand-in with a limit."""
    limit = OUT_LIMIT
    count = 0
    encoding = 'utf-8'
    tty = False

    def isatty(self):
        return self.tty

    def write(self, s):
        self.count += len(s)
        if self.count > self.limit:
            raise SutFlood()
        return super().write(s)


class BrokenOut(CapIO):
    """stdout stand-in whose n-th write fails, and everything after it"""
    def __init__(self, n, error):
        super().__init__()
        self.n, self.error, self.writes, self.failures, self.fd = n, error, 0, 0, None
        self.before = {int(f) for f in os.listdir('/proc/self/fd')}

    def write(self, s):
        self.writes += 1
        if self.n and self.writes >= self.n:
            self.failures += 1
            raise self.error
        return super().write(s)

    def flush(self):
        if self.n and self.writes >= self.n:
            self.failures += 1
            raise self.error

    def fileno(self):
        if self.fd is None:
            self.fd = os.open(os.devnull, os.O_WRONLY)
        return self.fd

    def done(self):
        """closes what was opened by and for the application (it would exit now)"""
        for fd in {int(f) for f in os.listdir('/proc/self/fd')} - self.before:
            try:
                os.close(fd)
            except OSError:
                pass


class ScriptedInput(io.RawIOBase):
    """stdin.buffer stand-in that returns short reads by a script.

    script: list of chunk lengths; read(n) returns min(n, next length) bytes and what
    was not taken of a scripted chunk stays for the next read. After the script is
    exhausted, reads are full. If endless is set, data repeats forever.
    """
    def __init__(self, data: bytes, script=None, endless=False, fault=None):
        self.data = data
        self.pos = 0
        self.script = list(script or [])
        self.reads = 0
        self.taken = 0
        self.endless = endless
        self.fault = fault          # (number of the read, exception to raise)

    def readable(self):
        return True

    def read(self, n=-1):
        self.reads += 1
        if self.fault and self.reads == self.fault[0]:
            raise self.fault[1]
        if self.endless:
            # every read returns what was asked for, forever
            n = 65536 if n is None or n < 0 else n
            reps = self.data * (n // len(self.data) + 2)
            off = self.taken % len(self.data)
            out = reps[off:off + n]
            self.taken += n
            return out
        rest = len(self.data) - self.pos
        if n is None or n < 0 or n > rest:
            n = rest
        if self.script:
            head = self.script[0]
            if head > n:
                self.script[0] = head - n
            else:
                n = head
                self.script.pop(0)
        out = self.data[self.pos:self.pos + n]
        self.pos += n
        self.taken += n
        return out

    read1 = read

    def readinto(self, b):
        out = self.read(len(b))
        b[:len(out)] = out
        return len(out)

    def tell(self):
        return self.pos


class Result:
    __slots__ = ('out', 'err', 'error', 'code', 'inp')

    def __init__(self, out, err, error, code=None, inp=None):
        self.out, self.err, self.error, self.code, self.inp = out, err, error, code, inp

    def __repr__(self):
        return f'Result(error={self.error!r}, code={self.code!r}, out={self.out!r}, err={self.err!r})'


_mods = None
_settings_cache = {}


def mods():
    global _mods
    if _mods is None:
        import kolombos.app
        import kolombos.settings
        import kolombos.runner
        import kolombos.console
        import kolombos.arghelp
        _mods = types.SimpleNamespace(
            app=kolombos.app, settings=kolombos.settings, runner=kolombos.runner,
            console=kolombos.console, arghelp=kolombos.arghelp)
    return _mods


def parse_settings(argv):
    """Settings as the real argument parser produces them for given argv (cached)."""
    key = tuple(argv)
    st = _settings_cache.get(key)
    if st is None:
        m = mods()
        m.settings.SettingsManager.init()
        st = m.settings.SettingsManager.app_settings
        m.arghelp.AppArgumentParser().parse_args(list(argv), namespace=st)
        _settings_cache[key] = st
    return copy.copy(st)


def forget_buffers():
    """a process usually runs the application once; the registry of buffers would grow here"""
    buffers = getattr(mods().console.Console, 'buffers', None)
    if isinstance(buffers, list):
        buffers.clear()


def seams() -> bool:
    """are the entry points behind the argument parser there (they save time only)"""
    m = mods()
    return (hasattr(m.settings, 'SettingsManager') and hasattr(m.settings.SettingsManager, 'init')
            and hasattr(m.arghelp, 'AppArgumentParser') and hasattr(m.console.Console, 'debug_settings')
            and hasattr(m.runner, 'RunnerFactory') and hasattr(m.runner.RunnerFactory, 'create'))


def describe(e) -> str:
    if isinstance(e, SutTimeout):
        return 'does not terminate (CPU limit)'
    if isinstance(e, SutFlood):
        return 'does not terminate (output limit)'
    return f'{type(e).__name__}: {str(e)[:300]}'


def run(argv, data=b'', script=None, columns=None, endless=False, keep_buffers=False,
        cpu=None) -> Result:
    """One run of the application behind the argument parser: `kolombos argv < data`.

    An exception escaping the runner (which the application would report as an error
    and exit code 1) is returned in .error.
    """
    m = mods()
    if not seams():
        r = run_app(argv, data, script, columns, keep_buffers, cpu, endless=endless)
        if r.error is None and r.code != 0:
            r.error = f'exit code {r.code}: {r.err[:300]}'
        return r
    old = sys.stdin, sys.stdout, sys.stderr
    out, err = CapIO(), CapIO()
    inp = ScriptedInput(data, script, endless)
    error = None
    if columns is not None:
        os.environ['COLUMNS'] = str(columns)
    try:
        sys.stdin, sys.stdout, sys.stderr = types.SimpleNamespace(buffer=inp), out, err
        with guard(cpu or CPU_LIMIT + CPU_PER_BYTE * min(len(data), 5000)):
            try:
                st = parse_settings(argv)
                m.settings.SettingsManager.app_settings = st
                m.console.Console.debug_settings()
                m.runner.RunnerFactory.create().run()
            except (Exception, SystemExit, SutTimeout, SutFlood) as e:
                error = describe(e)
    except SutTimeout as e:
        error = error or describe(e)
    finally:
        sys.stdin, sys.stdout, sys.stderr = old
        if columns is not None:
            os.environ['COLUMNS'] = '80'
        if not keep_buffers:
            forget_buffers()
    return Result(out.getvalue(), err.getvalue(), error, inp=inp)


def run_app(argv, data=b'', script=None, columns=None, keep_buffers=False, cpu=None, fault=None,
            endless=False, stdout=None) -> Result:
    """The whole application: App().run() with sys.argv, exit code included."""
    m = mods()
    old = sys.stdin, sys.stdout, sys.stderr, sys.argv
    out, err = stdout or CapIO(), CapIO()
    inp = ScriptedInput(data, script, endless, fault)
    error = None
    code = 'no exit'
    if columns is not None:
        os.environ['COLUMNS'] = str(columns)
    try:
        sys.stdin, sys.stdout, sys.stderr = types.SimpleNamespace(buffer=inp), out, err
        sys.argv = ['kolombos', *argv]
        with guard(cpu or CPU_LIMIT + CPU_PER_BYTE * min(len(data), 5000)):
            try:
                m.app.App().run()
            except SystemExit as e:
                code = 0 if e.code is None else e.code
            except (Exception, SutTimeout, SutFlood) as e:
                error = describe(e)
    except SutTimeout as e:
        error = error or describe(e)
    finally:
        sys.stdin, sys.stdout, sys.stderr, sys.argv = old
        if columns is not None:
            os.environ['COLUMNS'] = '80'
        if not keep_buffers:
            forget_buffers()
    return Result(out.getvalue(), err.getvalue(), error, code=code, inp=inp)
