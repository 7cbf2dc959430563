#!/opt/venv/bin/python
"""replay.py FILE: run one counterexample against the untouched code.
exit 1 when the check fails again, 0 when it does not."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.setrecursionlimit(20000)


def main():
    rec = json.load(open(sys.argv[1]))
    from symx import loader, runner, engine
    mods = loader.load_concrete()
    job = runner.find_job(rec['property'], rec['harness'])
    script = rec['script']
    if 'stat' in script:
        fails = runner.stat_run(job['fn'], mods, job.get('cfg', {}), script,
                                seconds=100, seed=54321)
    else:
        fails = runner.conc_fails(job['fn'], mods, job.get('cfg', {}), script,
                                  seconds=40)
    for f in fails:
        print('fails: %s %s' % tuple(f))
    if not fails:
        print('does not reproduce')
    sys.exit(1 if fails else 0)


if __name__ == '__main__':
    try:
        main()
    except Exception as e:
        print('replay broke: %r' % e)
        sys.exit(3)
