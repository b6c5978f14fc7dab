#!/bin/bash
# compiles the program beside this script against the library built from /repo and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -f "$tmp/demo"; rmdir "$tmp" 2>/dev/null' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1
export OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm=isolated OMPI_MCA_oob_tcp_if_include=lo OMP_NUM_THREADS=1
mpicxx -O1 -w -std=c++14 -mfma -mavx -I/repo/include -I/repo/_build/include -I/usr/include/mkl "$here/demo.cpp" -o "$tmp/demo" -L/repo/_build -lheffte -lfftw3 -lfftw3f -lmkl_intel_lp64 -lmkl_sequential -lmkl_core -lpthread -lm -ldl -Wl,-rpath,/repo/_build || exit 1
timeout -k 5 100 mpirun -np NPROCS "$tmp/demo"
