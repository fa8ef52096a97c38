#!/usr/bin/env python3
"""run.py <PROPERTY> [--thorough] [--family F] [--replay FILE]"""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.environ.get('QMON_CHILD') != '1':
    # a fresh interpreter that never reads stale byte code of the tree under test
    env = dict(os.environ, QMON_CHILD='1', PYTHONHASHSEED=os.environ.get('PYTHONHASHSEED', '0'),
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    for k in ('PYTHONPATH', 'PYTHONOPTIMIZE', 'PYTHONWARNINGS', 'PYTHONSTARTUP', 'PYTHONINSPECT'):
        env.pop(k, None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-B', '-s', '-X', 'pycache_prefix=/nonexistent-qmon', os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, HERE)
import importlib
prop = sys.argv[1]
if prop == 'SELFTEST':
    # the library imports and the reference model answers
    from qmon import core, model, lib
    assert model.fl(model.ratio({'kilometer': 1}, {'meter': 1})) == 1000.0
    print('reference units: %d, numpy %s' % (len(model.UNITS), core.np.__version__))
    sys.exit(0)
from qmon import core
try:
    check = importlib.import_module('qmon.checks.' + prop.lower())
except Exception as e:
    import traceback
    traceback.print_exc()
    sys.exit(2)
rc = core.main(check, sys.argv[2:])
sys.stdout.flush()
sys.exit(rc)
