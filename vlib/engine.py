"""Explorer: runs the jobs of a property on all cores, merges what they covered.

A property module (vlib/props/cNN.py) has:
  ID, TECHNIQUE, LEVEL_NOTE, BOUNDS (text), ASSUMPTIONS (list)
  jobs(tier) -> list of picklable jobs; every job enumerates a part of the bounded space
  run(job, acc) -> explores it; reports to Acc
  check(case) -> None, or what is wrong; decides one (JSON-able) case; used for replaying
"""
from __future__ import annotations

import atexit
import collections
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_FAILS = 3
JOB_WALL = 600


class Acc:
    """What a job covered."""

    def __init__(self):
        self.states = set()         # distinct states of the model / of the object under test
        self.transitions = set()    # distinct (state, event, state)
        self.outcomes = set()       # distinct observed outcomes
        self.traces = 0             # executions of the real code compared with the oracle
        self.samples = []
        self.fails = []             # [(case, message)]
        self.counts = collections.Counter()

    def state(self, key):
        self.states.add(hash(key))

    def transition(self, *key):
        self.transitions.add(hash(key))

    def outcome(self, key):
        self.outcomes.add(hash(key))

    def sample(self, case):
        if len(self.samples) < 2:
            self.samples.append(case)

    def fail(self, case, message):
        self.fails.append((case, message))

    @property
    def full(self):
        return len(self.fails) >= MAX_FAILS

    def merge(self, o):
        self.states |= o.states
        self.transitions |= o.transitions
        self.outcomes |= o.outcomes
        self.traces += o.traces
        self.counts.update(o.counts)
        self.fails += o.fails
        if len(self.samples) < 8:
            self.samples += o.samples[:1]




_scratch = None


def scratch():
    """a directory of this process, removed with all the others in the end"""
    global _scratch
    root = os.environ.get('VERIF_SCRATCH')
    if not root:
        root = os.environ['VERIF_SCRATCH'] = tempfile.mkdtemp(prefix='verif-')
        atexit.register(shutil.rmtree, root, ignore_errors=True)
    if _scratch is None or _scratch[0] != os.getpid():
        d = os.path.join(root, str(os.getpid()))
        os.makedirs(d, exist_ok=True)
        _scratch = (os.getpid(), d)
    return _scratch[1]


def module(pid):
    return importlib.import_module(f'vlib.props.{pid.lower()}')


def from_sut(tb_text) -> bool:
    """Whether an exception was raised by the code under test (last frame is there)."""
    from . import sut
    files = [ln for ln in tb_text.splitlines() if ln.lstrip().startswith('File "')]
    return any(f'File "{sut.REPO}/' in f for f in files)


def _init(pid):
    from . import sut
    sut.install_watchdog()
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _run_job(args):
    pid, i, job = args
    acc = Acc()
    t = time.time()
    try:
        from . import sut
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        module(pid).run(job, acc)
        return i, acc, time.time() - t
    except BaseException as e:
        # never happens on a tree that is all right; whether it was raised by the code under
        # test or by the oracle that could not make sense of what the code returned, the
        # code does not do what it has to
        tb = traceback.format_exc()
        where = 'code under test' if from_sut(tb) else 'oracle, on what the code returned'
        acc.fail({'job': repr(job)[:2000], 'exception': tb[-4000:]},
                 f'unexpected exception ({where}): {type(e).__name__}: {e}')
        return i, acc, time.time() - t


def _serial(pid, jobs):
    _init(pid)
    for i, job in enumerate(jobs):
        yield _run_job((pid, i, job))


def _worker(pid, jobs, conn, inherited):
    for c in inherited:
        c.close()
    _init(pid)
    try:
        while True:
            i = conn.recv()
            conn.send(_run_job((pid, i, jobs[i])))
    except (EOFError, BrokenPipeError):
        pass


def _parallel(pid, jobs, procs):
    """Results in the order they are ready; a worker has its own pipe and there are no
    threads and no locks here, so workers can be killed at any moment."""
    ctx = multiprocessing.get_context('fork')
    workers = {}
    waiting = iter(range(len(jobs)))
    try:
        for _ in range(procs):
            mine, other = ctx.Pipe()
            p = ctx.Process(target=_worker, args=(pid, jobs, other, [*workers, mine]), daemon=True)
            p.start()
            other.close()
            workers[mine] = p
        busy = {}
        for conn in workers:
            if (i := next(waiting, None)) is not None:
                conn.send(i)
                busy[conn] = i
        while busy:
            ready = multiprocessing.connection.wait(list(busy), JOB_WALL)
            if not ready:
                yield f'does not finish: {str(jobs[min(busy.values())])[:300]}'
                return
            for conn in ready:
                try:
                    result = conn.recv()
                except (EOFError, ConnectionError):
                    yield f'the process has died: {str(jobs[busy[conn]])[:300]}'
                    return
                if (i := next(waiting, None)) is not None:
                    conn.send(i)
                    busy[conn] = i
                else:
                    del busy[conn]
                yield result
    finally:
        for p in workers.values():
            p.kill()
        for conn, p in workers.items():
            p.join()
            conn.close()


def explore(pid, tier, procs=None, verbose=False):
    mod = module(pid)
    jobs = list(mod.jobs(tier))
    total = Acc()
    done = 0
    procs = procs or min(8, os.cpu_count() or 1, max(1, len(jobs)))
    slow = []
    root = os.environ['VERIF_SCRATCH'] = tempfile.mkdtemp(prefix='verif-')
    results = _serial(pid, jobs) if procs == 1 else _parallel(pid, jobs, procs)
    try:
        for item in results:
            if isinstance(item, str):
                total.fail({'exception': item}, item)
                break
            i, acc, wall = item
            done += 1
            slow.append((wall, i))
            total.merge(acc)
            if len(total.fails) >= MAX_FAILS:
                break
    finally:
        results.close()
        shutil.rmtree(root, ignore_errors=True)
        del os.environ['VERIF_SCRATCH']
    if verbose:
        for w, i in sorted(slow, reverse=True)[:8]:
            print(f'  {w:6.2f}s {str(jobs[i])[:150]}', file=sys.stderr)
    total.counts['jobs'] = done
    return total, done == len(jobs)


# ------------------------------------------------------------------ reporting

def known_findings(pid):
    """[(key, line)]: 'known: property=<id> key=<hash> <text>' lines of KNOWN_FINDINGS.txt"""
    out = []
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            w = line.split()
            if len(w) > 2 and w[0] == 'known:' and w[1] == f'property={pid}' and w[2].startswith('key='):
                out.append((w[2][4:], ' '.join(w[3:])))
    return out


def case_key(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]


def write_replay(pid, case, message):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}-{case_key(case)}.json')
    with open(path, 'w', encoding='utf-8') as f:
        json.dump({'property': pid, 'case': case, 'message': message,
                   'replay': f'cd {ROOT} && ./check replay {path}'},
                  f, indent=1, ensure_ascii=True)
        f.write('\n')
    return path


def evidence(pid, tier, mod, acc, wall, violations, complete):
    cov = {
        'states': len(acc.states), 'transitions': len(acc.transitions),
        'traces_validated_against_impl': acc.traces,
        'samples': acc.samples[:8] or ['(none)'],
        'exhaustive': bool(complete and not violations),
        'distinct_outcomes': len(acc.outcomes),
        'jobs': acc.counts['jobs'],
        'bounds': mod.BOUNDS if isinstance(mod.BOUNDS, str) else mod.BOUNDS[tier],
        'state_definition': mod.STATE,
        'validation': 'every explored trace is executed on the real code imported from the '
                      'working tree of the repository and compared with the oracle; '
                      'there is no separate model run',
    }
    for k, v in sorted(acc.counts.items()):
        if k != 'jobs':
            cov[k] = v
    if os.environ.get('VERIF_NO_EVIDENCE'):
        return
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f'{pid}.json'), 'w', encoding='utf-8') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
                   'level': 'model_checking', 'coverage': cov, 'assumptions': mod.ASSUMPTIONS,
                   'wall_s': round(wall, 2), 'violations': violations}, f, indent=1)
        f.write('\n')


def main_check(pid, tier, procs=None, verbose=False) -> int:
    t = time.time()
    try:
        mod = module(pid)
        acc, complete = explore(pid, tier, procs, verbose)
    except BaseException as e:
        tb = traceback.format_exc()
        if isinstance(e, KeyboardInterrupt):
            raise
        if not from_sut(tb):
            print(f'HARNESS ERROR: {tb}', file=sys.stderr)
            return 2
        # the code under test cannot even be loaded
        path = write_replay(pid, {'load': True}, tb[-4000:])
        print(f'{pid}: {tb[-1500:]}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    known = dict(known_findings(pid))
    new = []
    seen = set()
    for case, message in acc.fails:
        key = case_key(case)
        if key in known:
            if key not in seen:
                print(f'KNOWN-FINDING: property={pid} {known[key]}')
            seen.add(key)
        else:
            new.append((case, message))
    evidence(pid, tier, mod, acc, time.time() - t, len(new), complete)
    print(f'{pid} {tier}: {len(acc.states)} states, {len(acc.transitions)} transitions, '
          f'{acc.traces} executions, {len(acc.outcomes)} outcomes, {time.time() - t:.1f} s')
    if not new:
        return 0
    new.sort(key=lambda cm: len(json.dumps(cm[0])))
    for case, message in new[:MAX_FAILS]:
        path = write_replay(pid, case, message)
        print(f'{pid}: {message}')
        print(f'VIOLATION property={pid} replay={path}')
    return 1


def main_replay(path) -> int:
    with open(path, encoding='utf-8') as f:
        r = json.load(f)
    pid = r['property']
    from . import sut
    sut.install_watchdog()
    mod = module(pid)
    if 'load' in r['case']:
        sut.mods()
        print('loads')
        return 0
    if 'exception' in r['case']:
        print(r['case']['exception'])
        print('(re-run the check to see whether this is still so)')
        return main_check(pid, 'quick')
    try:
        message = mod.check(r['case'])
    except BaseException as e:
        tb = traceback.format_exc()
        if not from_sut(tb):
            raise
        message = f'unexpected exception: {tb}'
    if message:
        print(f'{pid}: {message}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    print(f'{pid}: holds for this case')
    return 0
