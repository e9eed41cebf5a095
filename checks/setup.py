#!/usr/bin/env python3
"""Nothing to build: check that the interpreters and solvers are there."""
import subprocess
import sys
ok = True
for cmd in (['python3-vt', '-c', 'import z3; print(z3.get_version_string())'],
            ['cvc5', '--version'],
            ['/opt/venv/bin/python', '-c', 'print(1)']):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, timeout=120)
        ok = ok and r.returncode == 0
    except Exception as e:
        print(cmd, e)
        ok = False
sys.exit(0 if ok else 1)
