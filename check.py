#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough]: decide one property."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.setrecursionlimit(20000)


def selftest():
    """setup: everything imports, the solver answers"""
    from symx import solver, engine, loader, npfacade, runner   # noqa
    z3 = solver.z3
    x, s = z3.Real('x'), z3.Solver()
    s.add(x * x == 2, x > 0)
    assert s.check() == z3.sat
    print('z3', z3.get_version_string())
    return 0


def main():
    if sys.argv[1] == '--selftest':
        sys.exit(selftest())
    pid = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from symx import solver, engine, loader, npfacade, runner   # preload
    sys.exit(runner.main(pid, tier, seed))


if __name__ == '__main__':
    main()
