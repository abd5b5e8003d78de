#!/bin/bash
# ./run.sh <PROPERTY-ID> [--replay FILE]   (VERIF_SEED, VERIF_TIER from the environment)
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ROOT="$HERE" VERIF_CWD="$PWD"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME="${HOME:-/root}"
export LC_ALL=C.UTF-8 MPLBACKEND=Agg TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= MPI4PY_MPIABI=openmpi
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore TF_ENABLE_ONEDNN_OPTS=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_plm_rsh_agent=/bin/false OMPI_MCA_rmaps_base_oversubscribe=1
export OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1
PY="${VERIF_PYTHON:-/opt/venv/bin/python}"
SCRATCH="$(mktemp -d "${TMPDIR:-/tmp}/pbt.XXXXXXXX")" || exit 3
export VERIF_SCRATCH="$SCRATCH" TMPDIR="$SCRATCH" MPLCONFIGDIR="$SCRATCH/mpl"
export HDF5_USE_FILE_LOCKING=FALSE
cleanup() { case "$SCRATCH" in */pbt.????????) rm -rf "$SCRATCH";; esac; }
trap cleanup EXIT
trap 'exit 4' TERM INT
cd "$SCRATCH" || exit 3
export PYTHONPATH="$VERIF_REPO:$HERE"
"$PY" -m pbt.run "$@"
exit $?
