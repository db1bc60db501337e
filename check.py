#!/usr/bin/env python3
import os, sys
PY = '/opt/venv/bin/python'
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
if os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != '/opt/venv':
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(PY, [PY, os.path.join(HERE, 'check.py')] + sys.argv[1:])
sys.path.insert(0, HERE)
from vf.runner import cli
cli()
