#!/bin/bash
# Builds the whole library from the current directory's sources in a scratch folder, then runs demo.cxx.
# Exit 0: the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
src="$PWD"
np=1; type=Release
[ -f "$here/run.conf" ] && . "$here/run.conf"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader \
  OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_hwloc_base_binding_policy=none TMPDIR="$w"
export GIT_CONFIG_COUNT=1 GIT_CONFIG_KEY_0=safe.directory GIT_CONFIG_VALUE_0='*'
mkdir "$w/kit" && cp "$here"/* "$w/kit/" && chmod +x "$w/kit/git"
cmake -S "$src" -B "$w/b" -G Ninja -DCMAKE_BUILD_TYPE=$type -DCMAKE_CXX_FLAGS_RELEASE="-O0" -DCMAKE_C_FLAGS_RELEASE="-O0" \
  -DCMAKE_CXX_FLAGS_DEBUG="-O0" -DCMAKE_C_FLAGS_DEBUG="-O0" \
  -DCMAKE_PROJECT_T8CODE_INCLUDE="$w/kit/inject.cmake" -DKIT="$w/kit" -DGIT_EXECUTABLE="$w/kit/git" \
  -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest \
  -DT8CODE_USE_SYSTEM_SC=ON -DSC_DIR="$w/kit" -DT8CODE_USE_SYSTEM_P4EST=ON -DP4EST_DIR="$w/kit" \
  -DT8CODE_ENABLE_MPI=ON -DT8CODE_BUILD_AS_SHARED_LIBRARY=OFF -DT8CODE_BUILD_TESTS=OFF -DT8CODE_BUILD_EXAMPLES=OFF \
  -DT8CODE_BUILD_TUTORIALS=OFF -DT8CODE_BUILD_BENCHMARKS=OFF > "$w/log" 2>&1 || { tail -20 "$w/log"; exit 3; }
ninja -C "$w/b" demo > "$w/log" 2>&1 || { grep -E "error" "$w/log" | head -20; exit 3; }
cd "$w"
exe="$(find "$w/b" -name demo -type f -perm -u+x | head -1)"
timeout 100 mpirun --oversubscribe -np $np "$exe" "$w"
