#!/bin/bash
# build.sh REPO OUTDIR: compiles the simulator and the scenarios against REPO/src.
set -eu
REPO=$1; OUT=$2; HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
CXX=${CXX:-clang++}; command -v "$CXX" >/dev/null || CXX=g++
WRAPS="clock_gettime nanosleep clock_nanosleep usleep sleep sched_yield pthread_yield gettimeofday time
 pthread_create pthread_join pthread_detach pthread_self pthread_attr_init pthread_attr_destroy pthread_attr_setschedpolicy
 pthread_attr_setstacksize pthread_attr_setschedparam pthread_attr_setinheritsched pthread_attr_setdetachstate
 pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
 pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast
 fprintf printf fputc putchar puts fputs fflush fwrite
 sem_init sem_destroy sem_post sem_wait sem_trywait sem_timedwait sem_clockwait sem_getvalue
 pthread_condattr_init pthread_condattr_setclock pthread_condattr_destroy pthread_once poll select
 pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock
 pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock
 pthread_setname_np pthread_setaffinity_np pthread_attr_setaffinity_np pthread_attr_setscope pthread_attr_setguardsize pthread_getschedparam
 pthread_attr_getstacksize pthread_attr_getschedpolicy pthread_attr_getschedparam pthread_attr_getdetachstate"
W=""; for w in $WRAPS; do W="$W -Wl,--wrap=$w"; done
F="-std=c++17 -g1 -mcx16 -fno-pie -w"
[ "$OUT/sim.o" -nt "$HERE/sim.cpp" ] && [ "$OUT/sim.o" -nt "$HERE/sim.h" ] || $CXX $F -O2 -c "$HERE/sim.cpp" -o "$OUT/sim.o" &
pids=$!
shift 2
MODULES=${*:-ring task rmtld}
# the same code as different compilers and options make it: clang -O1, clang -O0 with checked array bounds, gcc -O2,
# and clang with the library's debug output compiled in
V="o1 o0 dbg"; ! command -v g++ >/dev/null || V="$V gcc"
opt() { case $1 in
  o1) echo "$CXX -O1";; o0) echo "$CXX -O0 $BOUNDS";; dbg) echo "$CXX -O1 $BOUNDS -DRTMLIB_DEBUG=3";; gcc) echo "g++ -O2";; esac; }
BOUNDS=; case $CXX in *clang*) BOUNDS="-fsanitize=bounds -fsanitize-trap=bounds";; esac
jobs=
add() { # object, source, command
  $3 $F -I$REPO/src -I$HERE -fsanitize=thread -c $HERE/$2.cpp -o $OUT/$1.o
}
for m in $MODULES; do
  if [ $m = port ]; then # the ports to RISC-V, compiled for this machine against stand-ins for the systems' headers
    for s in ring task rmtld; do for os in rtems nuttx; do
      case $os in rtems) d=-D__rtems__;; nuttx) d="-D__NUTTX__ -D__NuttX__";; esac
      add port-$s.$os $s "$CXX -O1 -DSIM_PORT -D__riscv $d -I$HERE/port -include port.h" & pids="$pids $!"; jobs="$jobs port-$s.$os"
    done; done
    continue
  fi
  if [ $m = arm ]; then # the ports to ARM, likewise; their pointers have 32 bits, a narrowing that only gcc compiles
    for s in ring task rmtld; do for os in freertos nuttx; do
      case $os in freertos) d=;; nuttx) d=-DSIM_NUTTX;; esac
      add arm-$s.$os $s "g++ -O1 -fpermissive -fsanitize=float-cast-overflow -fsanitize-trap=float-cast-overflow -DSIM_PORT $d -I$HERE/port -include arm.h" & pids="$pids $!"; jobs="$jobs arm-$s.$os"
    done; done
    continue
  fi
  for v in $V; do
    if [ $v = o1 ]; then add $m.$v $m "$(opt $v)" & else { add $m.$v $m "$(opt $v)" 2>"$OUT/$m.$v.log" || echo "variant $v of $m does not compile, left out"; } & fi
    pids="$pids $!"; jobs="$jobs $m.$v"
  done
done
for p in $pids; do wait "$p"; done
for j in $jobs; do
  [ ! -e "$OUT/$j.o" ] || $CXX -no-pie "$OUT/sim.o" "$OUT/$j.o" $W -o "$OUT/$j" -latomic -pthread
  rm -f "$OUT/$j.o" "$OUT/$j.log"
done
