#!/usr/bin/env python3
"""Replay a recorded failing input against the real code."""
import json
import os
import subprocess
import sys
if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(sys.argv[1]))
p = subprocess.run(
    ['/opt/venv/bin/python', os.path.join(VERIF, 'rt', 'native.py')],
    input=json.dumps({'cmd': 'replay', 'module': d['module'],
                      'harness': d['harness'],
                      'inputs': d.get('inputs') or {}}) + '\n',
    stdout=subprocess.PIPE, universal_newlines=True)
print(p.stdout)
sys.exit(1 if json.loads(p.stdout).get('fail') else 0)
