#!/usr/bin/env python3
"""Nothing to build: checks that the toolchain the checks need is there and that every specification parses"""
import glob
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib.core import PY, TLA_CP

assert os.path.exists(PY), PY
for jar in TLA_CP.split(':'):
    assert os.path.exists(jar), jar
mods = sorted(os.path.basename(p) for p in glob.glob(os.path.join(HERE, 'spec', '*.tla')))
res = subprocess.run(['java', '-cp', TLA_CP, 'tla2sany.SANY'] + mods, cwd=os.path.join(HERE, 'spec'),
                     capture_output=True, text=True)
if res.returncode != 0:
    print(res.stdout[-3000:], res.stderr[-2000:])
    sys.exit(1)
print('ok: %d specifications parse' % len(mods))
