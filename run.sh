#!/bin/bash
# run.sh ID [--tier quick|thorough] [--replay FILE] [--unit SUBSTR] [--no-build]
# Decides one property by bounded exhaustive exploration of the code in /repo.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LC_ALL=C.UTF-8 HOME=${HOME:-/root}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 DUCC0_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 OMP_WAIT_POLICY=passive
unset PYTHONPATH
exec python -m mc.main "$@"
