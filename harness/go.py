"""Starts run.py with the interpreter that has s3ql's dependencies; bounded in time."""
import os, subprocess, sys
PY = '/opt/venv/bin/python'
here = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
env.pop('PYTHONPATH', None)
if sys.argv[1:2] == ['--setup']:
    sys.exit(subprocess.call([PY, '-c', 'import sys; sys.path.insert(0, %r); import boot; boot.setup(); print(boot.ext_dir())' % here], env=env))
sys.stdout.flush()
os.execve(PY, [PY, os.path.join(here, 'run.py')] + sys.argv[1:], env)
