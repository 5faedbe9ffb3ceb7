#!/usr/bin/env python3
"""check.py <property id> [--replay FILE] [--runs N] [--workers N] [--seed N] [--tier quick|thorough] [--one IDX]

Decides one property by seeded simulation of the code in /repo's working tree.
"""
import os
import sys

PYTHON = '/opt/venv/bin/python'
ENV = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
       'MKL_NUM_THREADS': '1', 'PYTHONPATH': '', 'PYTHONUTF8': '1'}


def main():
    if len(sys.argv) < 2:
        raise SystemExit(__doc__)
    hash_seed = os.environ.get('VERIF_HASHSEED', '0')
    want = dict(ENV, PYTHONHASHSEED=hash_seed)
    if os.environ.get('VERIF_CHILD') != '1':
        env = dict(os.environ, **want)
        env['VERIF_CHILD'] = '1'
        python = PYTHON if os.path.exists(PYTHON) else sys.executable
        os.execve(python, [python, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    import importlib
    module = importlib.import_module('checks.%s' % sys.argv[1].lower())
    from sim import runner
    sys.exit(runner.main(module.CHECK, sys.argv[2:]))


main()
