#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] | <property> --replay <file>"""
import os
import sys
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != '/opt/venv' and not os.environ.get('VERIF_NOEXEC'):
    os.environ['VERIF_NOEXEC'] = '1'
    os.execv(PY, [PY] + sys.argv)
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from symx import runner  # noqa: E402
sys.exit(runner.cli())
