#!/bin/bash
# usage: run_check.sh <PROPERTY-ID> [--tier quick|thorough]
#        run_check.sh --replay <file>
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -m vlib.main "$@"
