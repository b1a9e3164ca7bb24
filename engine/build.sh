#!/bin/bash
# build.sh OUTDIR : engine harness from /repo's current working tree
set -e
R=${REPO:-/repo}; O=$1; H=$(dirname "$(realpath "$0")"); mkdir -p "$O"
. "$H/rest.sh"
SAN="-fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=function,nonnull-attribute -fno-omit-frame-pointer"
clang -std=gnu11 -g -O1 $SAN -w -I$R/src -c $R/src/pogocache.c -o $O/pogocache.o &
clang++ -std=c++17 -g -O1 -fsanitize=address -fno-omit-frame-pointer -w -I$R/src -c $H/pbt.cpp -o $O/pbt.o &
wait %1; wait %2
link() { clang++ $SAN -Wl,--wrap=clock_gettime $O/pbt.o $O/pogocache.o "$@" -lm -lpthread -o $O/pbt; }
link 2>$O/link.err || { rest "$SAN"; link $O/rest.a; }
