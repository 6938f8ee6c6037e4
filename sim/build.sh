#!/bin/bash
# Builds the simulator and the library copies. usage: build.sh OUTDIR
#   OUTDIR/sim, OUTDIR/libA.so, OUTDIR/libB.so, OUTDIR/dict.txt
#   OUTDIR/libP.so: the same code unoptimised, with a scheduling point at every memory access and C library call (C08)
set -e
export LC_ALL=C
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
OUT=$1
mkdir -p "$OUT/lib" "$OUT/obj"
CF="-O1 -g -fPIC -w -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -D_XOPEN_SOURCE=700 -fno-builtin -fno-omit-frame-pointer -fsanitize=address -fsanitize-coverage=trace-pc --param asan-stack=1 -I$REPO/src"
cat > "$OUT/syms.txt" <<S
malloc sim_malloc
calloc sim_calloc
realloc sim_realloc
reallocarray sim_reallocarray
aligned_alloc sim_aligned_alloc
posix_memalign sim_posix_memalign
free sim_free
cfree sim_cfree
strdup sim_strdup
__strdup sim___strdup
strndup sim_strndup
__strndup sim___strndup
asprintf sim_asprintf
vasprintf sim_vasprintf
exit sim_exit
_exit sim__exit
_Exit sim__Exit
quick_exit sim_quick_exit
abort sim_abort
getenv sim_getenv
secure_getenv sim_secure_getenv
stdout sim_stdout
stderr sim_stderr
printf sim_printf
vprintf sim_vprintf
puts sim_puts
putchar sim_putchar
perror sim_perror
warnx sim_warnx
vwarnx sim_vwarnx
__assert_fail sim_assert_fail
time sim_time
rand sim_rand
random sim_random
__sanitizer_cov_trace_pc sim_trace_pc
S
cp "$OUT/syms.txt" "$OUT/symsP.txt"
for n in memset memcpy memmove memcmp memchr strlen strcpy strncpy strcat strncat strcmp strncmp strchr strrchr strstr strtol strtoul strtod snprintf vsnprintf sprintf vsprintf strtok isspace tolower toupper isdigit fputs fprintf fputc fwrite putc sscanf; do
  echo "$n simp_$n"
done >> "$OUT/symsP.txt"
CP="${CF/-O1/-O0}"
CP="${CP/-fsanitize=address/-fsanitize=thread}"   # only the calls it plants at memory accesses: the simulator answers them
CP="${CP/--param asan-stack=1/}"
lib_objs() {
  for c in "$REPO"/src/*.c; do
    b=$(basename "$c" .c)
    ( gcc $CF -c "$c" -o "$OUT/lib/$b.raw.o" && objcopy --redefine-syms="$OUT/syms.txt" "$OUT/lib/$b.raw.o" "$OUT/lib/$b.o" ) &
    pids+=($!)
    ( gcc $CP -c "$c" -o "$OUT/lib/$b.raw.p" && objcopy --redefine-syms="$OUT/symsP.txt" "$OUT/lib/$b.raw.p" "$OUT/lib/$b.p" ) &
    pids+=($!)
  done
}
pids=()
lib_objs
if [ ! -x "$OUT/sim" ]; then
  for c in "$HERE"/*.cpp; do
    b=$(basename "$c" .cpp)
    g++ -std=c++17 -O1 -g1 -Wno-frame-address -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -Wall -I"$REPO/src" -c "$c" -o "$OUT/obj/$b.o" &
    pids+=($!)
  done
fi
for p in "${pids[@]}"; do wait "$p"; done
if [ ! -x "$OUT/sim" ]; then
  g++ -fsanitize=address -rdynamic -o "$OUT/sim.tmp" "$OUT"/obj/*.o -ldl && mv "$OUT/sim.tmp" "$OUT/sim"
fi
gcc -shared -Wl,-Bsymbolic -Wl,-z,now -o "$OUT/libA.so" $(ls "$OUT"/lib/*.o | grep -v raw) -lm
cp "$OUT/libA.so" "$OUT/libB.so"
gcc -shared -Wl,-Bsymbolic -Wl,-z,now -o "$OUT/libP.so" $(ls "$OUT"/lib/*.p | grep -v raw) -lm
rm -f "$OUT"/lib/*.o "$OUT"/lib/*.p
python3 "$HERE/dict.py" "$REPO/src" > "$OUT/dict.txt"
