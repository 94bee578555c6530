# Environment shared by every check (sourced).
export PY=/opt/venv/bin/python
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENMDAO_REPORTS=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_plm_rsh_agent=/bin/false OMPI_MCA_mpi_yield_when_idle=1
VERIF_ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export VERIF_ROOT
export PYTHONPATH=$VERIF_ROOT:/repo/src
