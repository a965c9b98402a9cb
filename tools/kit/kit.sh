# kit.sh: builds libgringo from the current directory's sources into $T and links $T/$1 from $2
D=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
tar -xzf "$D/stubs.tgz" -C "$T"
build() { # build <program.cc> <exe>
    local S=libgringo/src/input
    mkdir -p "$T/gen/input/groundtermgrammar" "$T/gen/input/nongroundgrammar" "$T/o"
    re2c -o "$T/gen/input/groundtermlexer.hh" $S/groundtermlexer.xh && re2c -c -o "$T/gen/input/nongroundlexer.hh" $S/nongroundlexer.xch || exit 3
    bison -o "$T/gen/input/groundtermgrammar/grammar.cc" $S/groundtermgrammar.yy 2>/dev/null && bison -o "$T/gen/input/nongroundgrammar/grammar.cc" $S/nongroundgrammar.yy 2>/dev/null || exit 3
    local F="-std=c++17 -O0 -w -fwrapv -DNDEBUG -DCLINGO_MAP_TYPE=0 -DCLINGO_NO_VISIBILITY -I$T/stubs -I$T/gen -Ilibgringo -Ilibgringo/src -Ilibreify -Ilibclingo -I$D"
    { ls libgringo/src/*.cc libgringo/src/*/*.cc libreify/src/*.cc "$T"/gen/input/*/grammar.cc; echo "$D/$1"; } | nl -w1 -s' ' |
        xargs -P 8 -L 1 sh -c 'clang++ '"$F"' -c "$2" -o '"$T"'/o/$1.o || exit 255' sh || exit 3
    clang++ -o "$T/$2" "$T"/o/*.o || exit 3
}
# expect <mode> <program> <expected output>
expect() {
    local g
    g=$(printf '%s' "$2" | timeout 20 "$T/run" "$1" 2>&1)
    local rc=$?
    if [ "$g" != "$3" ] || [ $rc != 0 ]; then printf 'program: %s\nexpected: %s\ngot (rc %s): %s\n' "$2" "$3" "$rc" "$g"; exit 1; fi
}
