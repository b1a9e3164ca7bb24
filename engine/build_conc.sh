#!/bin/bash
# build_conc.sh OUTDIR SANITIZER(thread|address)
set -e
R=${REPO:-/repo}; O=$1; S=${2:-thread}; H=$(dirname "$(realpath "$0")"); mkdir -p "$O"
. "$H/rest.sh"
clang -std=gnu11 -g -O1 -fsanitize=$S -w -I$R/src -c $R/src/pogocache.c -o $O/pogo_$S.o &
clang++ -std=c++17 -g -O1 -fsanitize=$S -w -I$R/src -c $H/conc.cpp -o $O/conc_$S.o &
wait %1; wait %2
link() { clang++ -fsanitize=$S $O/conc_$S.o $O/pogo_$S.o "$@" -lm -lpthread -o $O/conc_$S; }
link 2>$O/link.err || { rest "-fsanitize=$S"; link $O/rest.a; }
