# for interactive use:  . /verif/env.sh; $PY -m pbt.main C01
. /opt/vp/env.sh
export PYTHONPATH=/verif:/repo
