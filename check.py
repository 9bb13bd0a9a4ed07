#!/opt/venv/bin/python
"""Run the runtime monitors of one property against the working tree in /repo.

    check.py --property C05 [--tier quick|thorough] [--seed N] [--cases N] [--jobs N]
    check.py --replay evidence/replay/C05-....json

Exit 0: held on everything observed.  Exit 1: `VIOLATION property=<id> replay=<path>`.  Exit 3: inconclusive.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python'
ENV = dict(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
           OMP_NUM_THREADS='1', OPENBLAS_CORETYPE='Prescott')

if __name__ == '__main__':
    if any(os.environ.get(k) != v for k, v in ENV.items()) or os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
        os.environ.update(ENV)
        os.execv(PYTHON, [PYTHON, os.path.abspath(__file__)] + sys.argv[1:])
    sys.path.insert(0, HERE)
    from monlib.runner import main
    sys.exit(main(sys.argv[1:]))
