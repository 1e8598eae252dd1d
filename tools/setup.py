"""Nothing to install: check that what the checks need is here."""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
py = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; echo $PY'], capture_output=True, text=True).stdout.strip() or 'python3'
env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1')
code = 'from pbt.worker import add_hypothesis as a; a(); import hypothesis, numpy, shenfun; print(hypothesis.__version__)'
sys.exit(subprocess.call([py, '-c', code], env=env))
