#!/usr/bin/env python3
"""setup_cmd: nothing has to be built ahead of a check; verify that the pieces a check needs are present."""
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'vp'))
sys.dont_write_bytecode = True
import build  # noqa

d = tempfile.mkdtemp(prefix='jptv-')
try:
    src = build.prepare(d)
    env = dict(os.environ, PYTHONPATH=src + os.pathsep + ROOT, PYTHONDONTWRITEBYTECODE='1', VP_SCRATCH=d, VP_SRC=src, MPLBACKEND='Agg')
    subprocess.run([build.PY, '-W', 'ignore', '-c', 'import vp.runner, hypothesis, jpt; print("setup ok", hypothesis.__version__)'],
                   env=env, check=True, cwd=ROOT)
finally:
    shutil.rmtree(d, ignore_errors=True)
