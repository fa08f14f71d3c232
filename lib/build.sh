#!/bin/bash
# build.sh DRIVER...: builds the simulated library from /repo's working tree and links each driver d_X.cc
# -> prints nothing; binaries at $OUT/d_X.  OUT given in the environment.
set -eu
REPO=${REPO:-/repo}
H=$(cd "$(dirname "$0")/../harness" && pwd)
mkdir -p "$OUT/obj" "$OUT/inc"
INC="-I$REPO/include -I$REPO/fcontext/src"
if [ ! -f "$REPO/include/kasync_config.h" ]; then
	cp "$H/kasync_config.h" "$OUT/inc/kasync_config.h"
fi
INC="-I$OUT/inc $INC"
COMMON="-O1 -g1 -w -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -fno-strict-aliasing"
TS="-fsanitize=thread"
{
for f in "$REPO"/src/*.c "$REPO"/fcontext/src/*.c; do
	b=$(basename "$f" .c)
	echo "g++ -x c++ $COMMON $TS $INC -c $f -o $OUT/obj/$b.o"
done
for f in "$REPO"/fcontext/src/asm/{jump,make,ontop}_x86_64_sysv_elf_gas.S; do
	[ -f "$f" ] && echo "gcc -c $f -o $OUT/obj/$(basename "$f" .S).asm.o"
done
echo "g++ -O2 -g1 -w -fno-omit-frame-pointer -c $H/simrt.cc -o $OUT/simrt.o"
for d in "$@"; do echo "g++ $COMMON $TS $INC -I$H -c $H/$d.cc -o $OUT/$d.o"; done
} > "$OUT/cmds"
xargs -P "$(nproc)" -d '\n' -n 1 sh -c < "$OUT/cmds" || { echo "compile failed" >&2; exit 3; }
W=""
for s in malloc calloc realloc free strdup strndup memalign aligned_alloc posix_memalign memcpy memmove memset \
 pthread_create pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock \
 pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast \
 pthread_kill pthread_sigmask sigwait gettimeofday time clock_gettime usleep sleep nanosleep sched_yield \
 epoll_wait epoll_ctl read write readv writev recv send recvmsg sendmsg recvfrom sendto sendfile BIO_ctrl SSL_sendfile SSL_free accept accept4 connect shutdown socket close syscall getaddrinfo freeaddrinfo; do W="$W -Wl,--wrap=$s"; done
for d in "$@"; do
	echo "g++ $W $OUT/$d.o $OUT/simrt.o $OUT/obj/*.o -rdynamic -lssl -lcrypto -lpthread -o $OUT/$d"
done | xargs -P "$(nproc)" -d '\n' -n 1 sh -c || { echo "link failed" >&2; exit 3; }
