#!/bin/bash
# Common launcher: fixed environment, seam preloaded, nothing written into /repo.
here=$(cd "$(dirname "$0")" && pwd)
if [ ! -e "$here/build/vsim.so" ] || [ "$here/sim/shim.c" -nt "$here/build/vsim.so" ]; then
  "$here/setup.sh" || exit 2
fi
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export PYTHONPATH="$here" LC_ALL=C.UTF-8 TZ=UTC
export GDAL_NUM_THREADS=1 CPL_DEBUG=OFF
unset PYTHONSTARTUP PYTHONOPTIMIZE
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cd "$here" || exit 2
export LD_PRELOAD="$here/build/vsim.so"
exec "$py" -B -X pycache_prefix=/nonexistent/pycache -m sim.main "$@"
