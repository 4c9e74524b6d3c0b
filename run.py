#!/usr/bin/env python3
"""Entry point of every check:  python3 run.py C05 [--replay FILE]

Re-executes itself under the interpreter the library is installed for, with a fixed environment, and
hands over to lib/harness.py.  VERIF_SEED, VERIF_TIER and (for development) VP_REPO are honoured."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def main():
    if os.environ.get('VP_STAGE') != '1':
        env = dict(os.environ)
        for k in ('PYTHONPATH', 'PYTHONHOME', 'PYTHONSTARTUP', 'PYTHONWARNINGS', 'PYTHONINSPECT'):
            env.pop(k, None)
        env.update(VP_STAGE='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONUNBUFFERED='1')
        os.execve(PY, [PY, '-B', os.path.join(HERE, 'run.py')] + sys.argv[1:], env)
    sys.path.insert(0, os.path.join(HERE, 'lib'))
    sys.path.insert(1, HERE)
    import harness
    sys.exit(harness.main(sys.argv[1:]))


if __name__ == '__main__':
    main()
