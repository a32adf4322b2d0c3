#!/opt/veriftools/pyvenv/bin/python
"""check.py ID [--replay FILE] [--thorough]: decide one property."""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or not sys.dont_write_bytecode:
    e = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
             TZ='UTC', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
             PYTHONPYCACHEPREFIX='/nonexistent/pycache')
    os.execve(sys.executable, [sys.executable, '-B'] + sys.argv, e)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                'vlib'))
import harness      # noqa

if __name__ == '__main__':
    code = harness.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
