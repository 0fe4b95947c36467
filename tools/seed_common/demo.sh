#!/bin/bash
# compiles demo.cc against the current tree (libnimble.a of _build) and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_btl=self,vader OMPI_MCA_mpi_yield_when_idle=1
export TMPDIR=$T
export NIMBLE_EXE=$repo/_build/src/NimbleSM
L=/usr/lib/x86_64-linux-gnu
tri=
for t in tpetraext tpetrainout tpetra kokkostsqr tpetraclassiclinalg tpetraclassicnodeapi tpetraclassic epetra kokkoskernels \
  teuchoskokkoscomm teuchoskokkoscompat teuchosremainder teuchosnumerics teuchoscomm teuchosparameterlist teuchosparser \
  teuchoscore kokkosalgorithms kokkoscontainers kokkoscore; do tri="$tri $L/libtrilinos_$t.so.13.2"; done
g++ -std=c++14 -w -O1 -DNIMBLE_HAVE_EXODUS -DNIMBLE_HAVE_KOKKOS -DNIMBLE_HAVE_MPI -DNIMBLE_HAVE_TRILINOS \
  -I"$repo/src" -I"$repo/tpl" -I"$here" -isystem $L/openmpi/include -isystem $L/openmpi/include/openmpi -isystem /usr/include/trilinos \
  "$here/demo.cc" -o "$T/demo" "$repo/_build/libnimble.a" $L/openmpi/lib/libmpi_cxx.so $L/openmpi/lib/libmpi.so $tri \
  -llapack -lblas $L/libexoIIv2c.so -ldl -lpthread || exit 98
cd "$T" && timeout 250 ./demo
