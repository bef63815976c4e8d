#!/usr/bin/env python3
"""python3-vt check.py <property id> [--thorough]"""
import os, signal, sys, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
sys.setrecursionlimit(20000)
if '--thorough' in sys.argv:
    os.environ['VERIF_TIER'] = 'thorough'
MODULES = {'C01': 'arith', 'C02': 'arith', 'C05': 'reps', 'C06': 'reps', 'C10': 'reps', 'C03': 'forms', 'C04': 'forms', 'C11': 'forms', 'C17': 'forms', 'C07': 'powers', 'C08': 'powers', 'C09': 'powers', 'C12': 'points', 'C13': 'points', 'C14': 'points', 'C15': 'points', 'C16': 'consts', 'C18': 'hexfmt', 'C19': 'consts', 'C20': 'ct', 'C21': 'ct', 'C22': 'effects', 'C23': 'effects'}

# thorough tier: repeated on the optimised LLVM IR
OPTIMISED = ('C01', 'C02', 'C03', 'C05', 'C06', 'C07', 'C08', 'C16', 'C18', 'C19')


def main():
    pid = sys.argv[1]
    import core
    mod = __import__(MODULES[pid])
    if core.TIER != 'thorough':
        signal.signal(signal.SIGALRM, lambda *a: (print('UNDECIDED property=%s: time limit' % pid), sys.stdout.flush(), core.kill_children(), os._exit(2)))
        signal.alarm(840)
    try:
        S = core.Session()
    except core.build.BuildError as e:
        print('BUILD FAILED\n' + str(e))
        return 3
    rc = getattr(mod, pid)(S)
    if rc == 0 and core.TIER == 'thorough' and pid in OPTIMISED:
        # the same obligations on the optimised code; a verdict is wanted only where that code can be encoded
        core.PHASE = 'optimised'
        core.T0 = core.time.time()
        core.BUDGET = 1800
        try:
            if getattr(mod, pid)(core.Session(opt=True)) == 1:
                rc = 1
        except core.build.BuildError as e:
            print('optimised build failed\n' + str(e)[-500:])
    return rc


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    os._exit(rc)
