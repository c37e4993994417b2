#!/bin/bash
# Build the simulator from /repo's current working tree.  Usage: build.sh  -> prints the path of the binary.
# Output goes to /verif/build/<content hash>/ (ignored by git); an existing build of the same content is reused.
set -u
V=$(cd "$(dirname "$0")" && pwd); REPO=${SPASM_REPO:-/repo}
HASH=$( (cd "$REPO" && cat src/*.c src/*.h src/*.cpp tools/*.c tools/*.h 2>/dev/null | sha256sum; ls "$REPO"/src "$REPO"/tools; cat "$V"/sim/* "$V"/build.sh) | sha256sum | cut -c1-20)
B=$V/build/$HASH
if [ -x "$B/simcheck" ]; then echo "$B/simcheck"; exit 0; fi
mkdir -p "$V/build"; W=$(mktemp -d "$V/build/tmp.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
CF="-std=gnu99 -O2 -g -w -fno-pie -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fopenmp -fsanitize=thread -fno-stack-protector -I$REPO/src"
SYMS="malloc calloc realloc free reallocarray posix_memalign aligned_alloc strdup strndup asprintf vasprintf getline getdelim __getdelim memalign memcpy memmove memset rand srand random rand_r gettimeofday time clock_gettime clock sleep usleep nanosleep sched_yield exit _exit _Exit atexit on_exit abort __assert_fail __stack_chk_fail err errx error errc verr verrx warn warnx perror printf vprintf puts putchar getchar scanf __isoc99_scanf __isoc23_scanf fscanf __isoc99_fscanf __isoc23_fscanf fgets fread fwrite fopen fclose fflush fileno fsync remove rename unlink access pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_unlock pthread_spin_trylock pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal pthread_cond_broadcast pthread_once stdin stdout stderr"
RED=""; for s in $SYMS; do RED="$RED --redefine-sym $s=sim_$s"; done
SECT="--rename-section .bss=sutbss,alloc,load,data,contents --rename-section .data=sutdata --rename-section .data.rel=sutdata2 --rename-section .data.rel.local=sutdata3"
fail() { echo "BUILD FAILED: $1" >&2; cat "$W"/*.err >&2 2>/dev/null; exit 2; }
one() { local a4=${4:-}; # object-name source compile-flags objcopy-flags
  gcc $CF $3 -c "$2" -o "$W/$1.o" 2>"$W/$1.err" && objcopy $RED $a4 $SECT "$W/$1.o" 2>>"$W/$1.err" && rm -f "$W/$1.err"
}
pids=""
g++ -std=gnu++11 -O0 -g0 -w -fno-pie $(pkg-config --cflags fflas-ffpack givaro 2>/dev/null) -I"$REPO/src" -c "$REPO/src/spasm_ffpack.cpp" -o "$W/ffpack.o" 2>"$W/ffpack.err" & pids="$pids $!"
for f in core simfs oracle harness iotext scen1 scen2 scen3 scen4 props main; do
  [ -f "$V/sim/$f.cpp" ] || continue
  g++ -std=gnu++17 -O2 -g0 -w -fno-pie -fno-stack-protector -I"$REPO/src" -I"$V/sim" -c "$V/sim/$f.cpp" -o "$W/h_$f.o" 2>"$W/h_$f.err" & pids="$pids $!"
done
for c in "$REPO"/src/*.c; do n=$(basename "$c" .c); one "s_$n" "$c" "" & pids="$pids $!"; done
TOOLS=""
for c in "$REPO"/tools/*.c; do n=$(basename "$c" .c); [ "$n" = common ] && continue; TOOLS="$TOOLS $n"
  one "t_$n" "$c" "" "--redefine-sym main=tool_${n}_main" & pids="$pids $!"; done
one "tc_common" "$REPO/tools/common.c" "" & pids="$pids $!"
for p in $pids; do wait $p || fail "compilation"; done
objcopy --redefine-sym stderr=sim_stderr --redefine-sym stdout=sim_stdout --redefine-sym __assert_fail=sim___assert_fail "$W/ffpack.o" || fail objcopy
TO=""; T2=""; HELP="$W/tc_common.o"
for n in $TOOLS; do if nm "$W/t_$n.o" | grep -q " T tool_${n}_main$"; then T2="$T2 $n"; else HELP="$HELP $W/t_$n.o"; fi; done
TOOLS=$T2; ar rcs "$W/libhelp.a" $HELP || fail ar      # sources without a main program: helpers of the tools
for n in $TOOLS; do
  ld -r -o "$W/T_$n.o" "$W/t_$n.o" "$W/libhelp.a" 2>"$W/ld.err" || fail "ld -r $n"
  objcopy --keep-global-symbol="tool_${n}_main" "$W/T_$n.o" || fail "objcopy $n"
  TO="$TO $W/T_$n.o"
done
{ echo '#include <cstddef>'; echo 'extern "C" {'; for n in $TOOLS; do echo "int tool_${n}_main(int, char **);"; done; echo '}'
  echo 'struct ToolEnt { const char *name; int (*fn)(int, char **); };'
  echo 'extern const ToolEnt tool_table[] = {'; for n in $TOOLS; do echo "{\"$n\", tool_${n}_main},"; done; echo '{nullptr, nullptr}};'; } > "$W/tt.cpp"
g++ -O1 -w -fno-pie -c "$W/tt.cpp" -o "$W/h_tt.o" || fail tooltable
g++ -no-pie -g -o "$W/simcheck" "$W"/h_*.o "$W"/s_*.o $TO "$W/ffpack.o" $(pkg-config --libs fflas-ffpack givaro 2>/dev/null) -lblas -llapack -lgivaro -lgmpxx -lgmp -lm 2>"$W/link.err" || fail link
mkdir -p "$B.tmp$$" && mv "$W/simcheck" "$B.tmp$$/" && { rm -rf "$B"; mv "$B.tmp$$" "$B"; }
echo "$B/simcheck"
