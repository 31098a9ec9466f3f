#!/usr/bin/env python3
"""Entry point: run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--only K]"""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
PY = '/opt/venv/bin/python'
if os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') and os.path.exists(PY):
    os.execv(PY, [PY, '-B', os.path.abspath(__file__)] + sys.argv[1:])
if sys.argv[1:2] == ['SETUP']:
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    import marcel.main, psutil, dill      # nothing to build: marcel is Python
    print('ok')
    sys.exit(0)
import core
sys.exit(core.main(sys.argv[1:]))
