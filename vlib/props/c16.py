"""C16: runs in one process do not influence each other."""
import json
import os
import subprocess
import sys
import traceback

from .. import sut

ID = 'C16'
TECHNIQUE = ('exhaustive enumeration of histories of runs on the whole application; every history branches off by fork '
             'from the same pristine process')
LEVEL_NOTE = ('all histories of <= 3 runs over a menu of 19 (modes, options, failures, interruptions, terminal widths); every run of the '
              'menu in 4 separate processes with different hash seeds')
BOUNDS = {'quick': LEVEL_NOTE, 'thorough': 'as quick, all histories of <= 4 runs'}
STATE = 'history of runs; a transition is one more run'
ASSUMPTIONS = ['state outside of the process (files, environment) is not changed by runs']

D1 = b'a\x1b[31mb\x1b[1;38;5;208mc\x1b[m\x01\x00 \t\xc3\xa9\xff\x1bM\x1b[2J\r\nx\x1b[>4;1m\n'
D2 = b'\x1b[48;2;1;2;3;4mq\x1b[0;7;9mw\x02\x1f \n\x1b(B\x1b7\xe2\x82\xac\x80z'
MENU = [
    ([], D1, None), (['-m2', '-es'], D1, None), (['-m1', '--color-markers', '--no-separators'], D2, None),
    (['-b', '-w4', '-d', '-su', '--color-markers'], D1, None), (['-b', '-w3', '-SCPEUI'], D2, None),
    (['-b', '--no-offsets', '-cpi', '-B20'], D1 + D2, None), (['-scpeui', '-m1', '-L1'], D2, None),
    (['-M', '-w8', '-B40'], b'', None), (['-DDDD', '-b', '-B10', '-f3'], D1, None), (['-D', '-m2', '-f5'], D2, None),
    (['-l'], b'', None), (['-v'], b'', None), (['--bad'], b'', None), (['/nonexistent/file'], b'', None),
    (['-b', '-w5', '-f4'], D1, [4, 'OSError']), (['-m1', '-e', '-f6'], D1, [3, 'KeyboardInterrupt']),
    (['-b', '-f32'], D1 + D2, None, 44), (['-b', '-D'], D1 + D2, None, 132), (['-h'], b'', None, 100),
]


def once(i):
    argv, data, fault, columns = (*MENU[i], None)[:4]
    if fault:
        fault = (fault[0], OSError(5, 'Input/output error') if fault[1] == 'OSError' else KeyboardInterrupt())
    r = sut.run_app(argv, data, keep_buffers=True, fault=fault, columns=columns)
    return [r.out, r.err, r.code, r.error]


def in_child(fn):
    """result of fn() (JSON-able) computed in a forked copy of this process"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        try:
            res = fn()
        except BaseException:
            res = {'exception': traceback.format_exc()}
        with os.fdopen(wr, 'w') as f:
            json.dump(res, f)
        os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f:
        text = f.read()
    os.waitpid(pid, 0)
    res = json.loads(text) if text else {'exception': 'no answer'}
    if isinstance(res, dict) and 'exception' in res:
        raise RuntimeError(res['exception'])
    return res


def baselines():
    sut.mods()
    return [in_child(lambda: once(i)) for i in range(len(MENU))]


def walk(history, depth, base, found):
    """runs every continuation of the history (already run in this process) in forks"""
    for i in range(len(MENU)):
        def step():
            mine = []
            got = once(i)
            if got != base[i]:
                mine.append([[*history, i], got])
            elif len(history) + 1 < depth:
                walk([*history, i], depth, base, mine)
            return mine
        found += in_child(step)
        if len(found) > 3:
            return


def show(i):
    return f'kolombos {" ".join(MENU[i][0])}'


def message(history, got, base):
    want = base[history[-1]]
    k = next((k for k in range(4) if got[k] != want[k]), 0)
    part = ('standard output', 'standard error', 'exit code', 'error')[k]
    return f'after {[show(i) for i in history[:-1]]}, {show(history[-1])} gives another {part}: ' \
           f'{str(got[k])[:300]!r} instead of {str(want[k])[:300]!r}'


def seeds(i):
    """the same run in processes with different hash seeds"""
    outs = []
    for seed in ('0', '1', '2', '77'):
        code = ('import sys, json; sys.path.insert(0, sys.argv[1]); from vlib.props import c16; '
                'from vlib import sut; sut.install_watchdog(); print(json.dumps(c16.once(int(sys.argv[2]))))')
        root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        p = subprocess.run([sys.executable, '-X', 'utf8', '-B', '-c', code, root, str(i)], capture_output=True,
                           env=dict(os.environ, PYTHONHASHSEED=seed), timeout=120)
        if p.returncode:
            return f'{show(i)}: {p.stderr.decode()[-300:]}'
        outs.append(p.stdout)
    if len(set(outs)) != 1:
        return f'{show(i)} depends on the hash seed'
    return None


def jobs(tier):
    n = len(MENU)
    if tier == 'quick':
        return [('walk', [i], 3) for i in range(n)] + [('seeds', i) for i in range(n)]
    return [('walk', [i, j], 4) for i in range(n) for j in range(n)] + [('seeds', i) for i in range(n)]


_base = None


def run(job, acc):
    global _base
    if job[0] == 'seeds':
        acc.traces += 4
        m = seeds(job[1])
        if m:
            acc.fail({'seeds': job[1]}, m)
        return
    if _base is None:
        _base = baselines()
    _, prefix, depth = job

    def first():
        found = []
        for k, i in enumerate(prefix):
            got = once(i)
            if got != _base[i]:
                return [[prefix[:k + 1], got]]
        walk(prefix, depth, _base, found)
        return found
    for history, got in in_child(first):
        acc.fail({'history': history}, message(history, got, _base))
    n = len(MENU)
    total = 1
    for k in range(len(prefix), depth + 1):
        acc.traces += total
        for x in range(total):
            acc.state((tuple(prefix), k, x))
            acc.transition(tuple(prefix), k, x)
        total *= n
    for b in _base:
        acc.outcome(json.dumps(b))
    acc.sample([show(i) for i in prefix])


def check(case):
    if 'seeds' in case:
        return seeds(case['seeds'])
    base = baselines()

    def go():
        for i in case['history']:
            got = once(i)
        return got
    got = in_child(go)
    return message(case['history'], got, base) if got != base[case['history'][-1]] else None
