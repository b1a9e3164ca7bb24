#!/bin/bash
# build.sh OUTDIR [address|thread]: the whole server from /repo's current tree
set -e
R=${REPO:-/repo}; O=$1; S=${2:-address}; H=$(dirname "$(realpath "$0")"); mkdir -p "$O"
if [ "$S" = thread ]; then SAN="-fsanitize=thread"; else
SAN="-fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=function,nonnull-attribute,alignment,pointer-overflow"; fi
D="-DNOMIMALLOC -DNOJEMALLOC -DNOOPENSSL -DNOURING"
printf 'char GITHASH[] = "verif";\nchar GITVERS[] = "0.0.0";\n' > $O/gitinfo.h
mkdir -p $O/src; ls $R/src/*.c > $O/list
# gitinfo.h is found next to main.c first when the tree has been built, which is harmless
xargs -P 8 -I{} sh -c 'clang -std=gnu11 -g -O1 '"$SAN"' -fno-omit-frame-pointer -w '"$D"' -I'"$R/src"' -I'"$O"' -c {} -o '"$O"'/src/$(basename {}).o' < $O/list
clang -std=gnu11 -g -O1 -fno-omit-frame-pointer -w -c $H/shim.c -o $O/shim.o
W=
for f in clock_gettime time gettimeofday sleep usleep nanosleep clock_nanosleep fopen open open64 openat creat write pwrite writev read fsync fdatasync ftruncate rename unlink close pthread_create; do W="$W -Wl,--wrap=$f"; done
clang $SAN $W $O/src/*.o $O/shim.o -lm -lpthread -o $O/pogocache
rm -f $O/src/*.o
