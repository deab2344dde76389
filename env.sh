export HOME=/root LANG=C.UTF-8 PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENTURNS_NUM_THREADS=1
unset PYTHONPATH
PY=/opt/venv/bin/python
export MPLCONFIGDIR=$(mktemp -d /tmp/otpodsim_mpl.XXXXXX)
