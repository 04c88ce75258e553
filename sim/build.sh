#!/bin/bash
# usage: build.sh OUTDIR [REPO]  -- compiles the library of the working tree with the simulator seam and links the runner
set -e
OUT=$1; REPO=${2:-/repo}; HERE=$(cd "$(dirname "$0")" && pwd)
CC=${SIM_CC:-gcc-13}; command -v $CC >/dev/null || CC=gcc
mkdir -p $OUT/lib $OUT/rt
rm -f $OUT/lib/*.o $OUT/sim $OUT/failed
CF="-std=gnu11 -O2 -g -fopenmp -fsanitize=thread -fstack-protector-strong -U_FORTIFY_SOURCE -fno-pie -w -fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove -fno-builtin-memcmp"
# names taken over by the simulator = functions sim_X defined in rt.cpp
CXX="g++ -O2 -g -std=c++17 -fno-pie -w -fno-stack-protector -I$REPO/libgrpp"
pids=""
newer() { [ ! -f "$2" ] || [ "$1" -nt "$2" ]; }
for f in $HERE/*.cpp; do o=$OUT/rt/$(basename $f .cpp).o
  need=0; if newer $f $o; then need=1; fi
  for h in $HERE/*.h $REPO/libgrpp/libgrpp.h $REPO/libgrpp/parameters.h; do if newer $h $o; then need=1; fi; done
  if [ $need = 1 ]; then ( $CXX -c $f -o $o.tmp && mv $o.tmp $o || touch $OUT/failed ) & fi
done
ls $REPO/libgrpp/*.c | xargs -P 8 -I{} sh -c "$CC $CF -I$REPO/libgrpp -c {} -o $OUT/lib/\$(basename {} .c).o || touch $OUT/failed" 
# the C driver, as one object whose only global name is driver_main
mkdir -p $OUT/drv; rm -f $OUT/drv/*.o
if ls $REPO/test_libgrpp_c/*.c >/dev/null 2>&1; then
  ls $REPO/test_libgrpp_c/*.c | xargs -P 8 -I{} sh -c "$CC $CF -I$REPO/libgrpp -I$REPO/test_libgrpp_c -c {} -o $OUT/drv/\$(basename {} .c).o || touch $OUT/failed"
fi
wait
[ ! -f $OUT/failed ] || { echo "compile failed" >&2; exit 2; }
nm $OUT/rt/rt.o | awk '$2=="T" && $3 ~ /^sim_/ {n=substr($3,5); print n, $3}' | grep -v '^set_omp' > $OUT/redefine.txt
( cat $OUT/redefine.txt; nm $OUT/rt/rt.o | awk '$2=="T" && $3 ~ /^simlib_/ {n=substr($3,8); print n, $3}' ) > $OUT/redefine-lib.txt
for o in $OUT/lib/*.o; do echo $o; done | xargs -P 8 -n 8 sh -c 'for o in "$@"; do objcopy --redefine-syms='$OUT'/redefine-lib.txt $o || exit 1; done' _
DRV=
if ls $OUT/drv/*.o >/dev/null 2>&1; then
  ld -r -o $OUT/driver.o $OUT/drv/*.o
  objcopy --redefine-sym main=driver_main --redefine-syms=$OUT/redefine.txt $OUT/driver.o
  objcopy --keep-global-symbol=driver_main $OUT/driver.o; DRV=$OUT/driver.o
fi
g++ -no-pie -o $OUT/sim $OUT/rt/*.o $OUT/lib/*.o $DRV -lm -lpthread -lgomp
