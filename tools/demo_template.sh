#!/bin/bash
# Compiles demo.cpp against the sources and object files of the repository in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); N=/opt/ngs/6.2.2405; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
I=""; for d in base base/utils base/distributed base/mesh base/coarsening base/factory base/smoothers base/solve base/precond base/ngs_extension base/linalg base/python h1 elasticity stokes/common stokes/ncfes stokes/hdiv; do I="$I -I$R/src/$d"; done
g++ -w -O1 -DNDEBUG -fPIC -m64 -march=core-avx2 -fabi-version=17 -std=c++17 -DMAX_SYS_DIM=3 -DMIS_AGG -DSPW_AGG -DELASTICITY -DSTOKES_AMG -DNGS_COMPATIBILITY -DHAVE_CXA_DEMANGLE -DHAVE_DLFCN_H -DHAVE_NETGEN_SOURCES -DLAPACK -DNETGEN_PYTHON -DNGS_PYTHON -DNG_MPI_WRAPPER -DNG_PYTHON -DPARALLEL -DPYBIND11_SIMPLE_GIL_MANAGEMENT -DTCL -DUSE_PARDISO -DUSE_TIMEOFDAY -D_GLIBCXX_USE_CXX11_ABI=1 $I -isystem $N/include -isystem $N/include/netgen -isystem $N/include/netgen/include -isystem /usr/include/python3.12 -c "$D/demo.cpp" -o "$W/demo.o" || exit 99
L=$(echo $N/lib/python3.12/site-packages/netgen_mesher.libs)
g++ -o "$W/demo" "$W/demo.o" $(find "$R/_build" -name '*.cpp.o') -rdynamic -L$L -L$N/lib -Wl,-rpath,$L -Wl,-rpath,$N/lib -Wl,--allow-shlib-undefined -lngsolve -lngcomp -lngfem -lngla -lngbla -lngstd -lnglib -lngcore $N/lib/libmkl_rt.so.2 -lpython3.12 -ldl -lpthread || exit 98
export LD_LIBRARY_PATH=$N/lib OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NGS_NUM_THREADS=1; "$W/demo"
