# usage: . build_demo.sh ; build_demo demo.cpp out   (cwd: the repository, already built)
build_demo() {
    local src=$(realpath "$1") out=$2 cmds cc ld
    cmds=$(ninja -C _build -t commands test_all) || return 99
    cc=$(printf '%s\n' "$cmds" | grep -- '-c .*/test/test_cache.cpp' | head -1 | sed -e 's# -MD .*##')
    ld=$(printf '%s\n' "$cmds" | tail -1 | sed -e 's#^: && ##' -e 's# && :$##' -e 's#CMakeFiles/test_all.dir/[^ ]*\.o##g' -e 's# -o [^ ]*# #' -e 's#-lgtest##')
    (cd _build && $cc -c "$src" -o "$out.o" && $(printf '%s' "$ld" | sed -e "s#^/usr/bin/g++ #/usr/bin/g++ $out.o -o $out #")) || return 99
}
