#!/usr/bin/env python3
"""Entry point of every check:  run.py <PROPERTY-ID> [--tier quick|thorough] [--replay FILE]

Rebuilds the extension modules of /repo's working tree (the repository's own
incremental build), then runs the property's generated-input campaign with the
interpreter the repository is installed for.  Exit 0: held on everything
explored; 1: violated (a VIOLATION line is printed); 2: error of the check.
"""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = r'''
set -u
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
: "${PY:=python3}"
export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
mkdir -p /repo/build
exec 9>/repo/build/.verif_lock
flock -w 600 9 || { echo "could not get the build lock" >&2; exit 2; }
if [ "$VERIF_NOBUILD" != 1 ]; then
  log=$(mktemp)
  if type build_ext >/dev/null 2>&1; then
    build_ext >"$log" 2>&1
  else
    (cd /repo/spectralDNS/optimization && "$PY" setup.py && cd /repo && "$PY" setup.py build_ext --inplace) >"$log" 2>&1
  fi || { tail -50 "$log" >&2; rm -f "$log"; echo "BUILD FAILED" >&2; exit 2; }
  rm -f "$log"
fi
exec 9>&-
export PYTHONPATH="$VERIF_HERE:/repo"
cd "$VERIF_HERE"
exec "$PY" -m pbt.main "$@"
'''

if __name__ == '__main__':
    env = dict(os.environ)
    env['VERIF_HERE'] = HERE
    env.setdefault('VERIF_NOBUILD', '0')
    sys.exit(subprocess.call(['bash', '-c', BUILD, 'run'] + sys.argv[1:], env=env, cwd=HERE))
