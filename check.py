#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--seed N] [--only SUB]

Rebuilds jpt from /repo's working tree into a scratch directory and runs the generated-input search that
decides PROPERTY there (vp/runner.py under the repository's own interpreter).  Exit 0: held on everything
explored; 1: a VIOLATION line was printed; 3: error of the check."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vp'))
sys.dont_write_bytecode = True
import build  # noqa


def main():
    scratch = tempfile.mkdtemp(prefix='jptv-')
    try:
        try:
            src = build.prepare(scratch)
        except build.BuildError as e:
            print('check error: the extensions do not build\n%s' % e)
            return 3
        env = dict(os.environ)
        env.update(PYTHONPATH=src + os.pathsep + HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VP_SCRATCH=scratch, VP_SRC=src,
                   HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, 'hyp'), TMPDIR=scratch)
        r = subprocess.run([build.PY, '-W', 'ignore', '-m', 'vp.runner'] + sys.argv[1:], env=env, cwd=HERE)
        return r.returncode if r.returncode in (0, 1) else 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
