import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib import engine


def main(argv):
    if argv and argv[0] == '--setup':
        for f in sorted(os.listdir(os.path.join(engine.ROOT, 'vlib/props'))):
            if f.startswith('c') and f.endswith('.py'):
                engine.module(f[:-3])
        return 0
    if argv and argv[0] == 'replay':
        return engine.main_replay(argv[1])
    tier = 'thorough' if '--thorough' in argv else 'quick'
    procs = int(argv[argv.index('-j') + 1]) if '-j' in argv else None
    if '-j' in argv:
        del argv[argv.index('-j'):argv.index('-j') + 2]
    ids = [a for a in argv if not a.startswith('-')]
    if ids == ['all']:
        ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(engine.ROOT, 'vlib/props'))
                     if f.startswith('c') and f.endswith('.py'))
    return max(engine.main_check(i, tier, procs, '-v' in argv) for i in ids)


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    import atexit
    atexit._run_exitfuncs()
    os._exit(code)
