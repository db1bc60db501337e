#!/usr/bin/env python3
"""Nothing to build ahead of time: checks that the tools the checks need are there."""
import os, sys
for p in ('/opt/venv/bin/python', '/opt/veriftools/tla/tla2tools.jar'):
    if not os.path.exists(p):
        sys.exit('missing ' + p)
print('ok')
