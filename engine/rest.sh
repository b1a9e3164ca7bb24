# rest FLAGS : $O/rest.a, the other sources, for a tree whose engine uses helpers that live in them.
# The linker takes from the archive what the engine refers to, and nothing else.
rest() {
    rm -rf "$O/rest.o" "$O/rest.a"; mkdir -p "$O/rest.o"
    printf 'char GITHASH[] = "verif";\nchar GITVERS[] = "0.0.0";\n' > "$O/rest.o/gitinfo.h"
    for f in "$R"/src/*.c; do
        n=$(basename "$f")
        case $n in main.c|pogocache.c) continue;; esac
        clang -std=gnu11 -g -O1 $1 -w -DNOMIMALLOC -DNOJEMALLOC -DNOOPENSSL -DNOURING -I"$R/src" -I"$O/rest.o" -c "$f" -o "$O/rest.o/$n.o" &
    done
    wait
    ar rcs "$O/rest.a" "$O"/rest.o/*.o
}
