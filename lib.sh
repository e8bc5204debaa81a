# shared by setup.sh and check.sh: builds the FMUs under test from the current working tree of /repo
REPO=${VERIF_REPO:-/repo}
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
B=$HERE/build
fail() { echo "ERROR: $*" >&2; exit 2; }

tree_hash() {
    (cd "$REPO" && find . \( -name .git -o -path ./build -o -path ./lib -o -path ./dist \) -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}
# copy of the sources, so that nothing is ever written to /repo
copy_sources() {
    local dst=$1
    rm -rf "$dst" && mkdir -p "$dst" || return 1
    (cd "$REPO" && tar --exclude=./.git --exclude=./build --exclude=./lib --exclude=./dist -cf - .) | tar -C "$dst" -xf -
}
# build_fmus <variant> <cflags> [<FMI 3.0 models> <linker flags>]: libraries end up in build/<variant>/fmi{2,3}/temp/<Model>/binaries
build_fmus() {
    local v=$1 flags=$2 h; h=$(tree_hash)-$(echo "$flags" | cksum | cut -d' ' -f1)
    if [ -f "$B/$v/stamp" ] && [ "$(cat "$B/$v/stamp")" = "$h" ]; then return 0; fi
    rm -rf "${B:?}/$v"; mkdir -p "$B/$v"
    copy_sources "$B/$v/src" || fail "cannot copy $REPO"
    local ver versions="2 3" only=$3
    [ -z "$only" ] || versions=3
    for ver in $versions; do
        (
            cmake -S "$B/$v/src" -B "$B/$v/fmi$ver" -G Ninja -DFMI_VERSION=$ver -DFMI_ARCHITECTURE=x86_64 -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ \
                -DCMAKE_BUILD_TYPE=None "-DCMAKE_C_FLAGS=$flags" "-DCMAKE_CXX_FLAGS=$flags" "-DCMAKE_SHARED_LINKER_FLAGS=$4" "-DCMAKE_MODULE_LINKER_FLAGS=$4" &&
            models="BouncingBall Dahlquist Feedthrough Resource Stair VanDerPol" &&
            { [ $ver = 2 ] || models="$models Clocks Roberts StateSpace"; } &&
            models=${only:-$models} &&
            ninja -C "$B/$v/fmi$ver" $models
        ) > "$B/$v/build$ver.log" 2>&1 || { tail -30 "$B/$v/build$ver.log" >&2; fail "building the FMI $ver FMUs from $REPO failed"; }
    done
    echo "$h" > "$B/$v/stamp"
}
# the importer library and an FMU that records what it is called with
build_importer() {
    local d=$B/fmu s=$B/fmu/src/src h f srcs=""
    h=$(cat "$d/stamp")-$(cat "$HERE"/harness/import/*.c "$HERE"/harness/functions.h | cksum | cut -d' ' -f1)
    if [ -f "$d/stamp-importer" ] && [ "$(cat "$d/stamp-importer")" = "$h" ]; then return 0; fi
    for f in "$s"/*.c; do
        case $f in */fmi2Functions.c|*/fmi3Functions.c|*/cosimulation.c) ;; *) srcs="$srcs $f" ;; esac
    done
    gcc -shared -fPIC -w -O2 -g -I"$B/fmu/src/include" -o "$d/importer.so" $srcs "$HERE/harness/import/glue.c" -ldl > "$d/importer.log" 2>&1 &&
        gcc -shared -fPIC -w -O2 -g -o "$d/recorder.so" "$HERE/harness/import/recorder.c" >> "$d/importer.log" 2>&1 || { tail -30 "$d/importer.log" >&2; fail "building the importer library from $REPO failed"; }
    echo "$h" > "$d/stamp-importer"
}
# the FMUs built from the sources that they contain
build_sources() {
    local d=$B/sources h; h=$(cat "$B/fmu/stamp")-$(cksum < "$HERE/tools/sources.py" | cut -d' ' -f1)
    if [ -f "$d/stamp" ] && [ "$(cat "$d/stamp")" = "$h" ]; then return 0; fi
    rm -rf "${B:?}/sources"; mkdir -p "$d/headers"
    cp "$B"/fmu/src/include/fmi[23]*.h "$d/headers/" && /usr/bin/python3 "$HERE/tools/sources.py" "$B/fmu" "$d/headers" "$d" > "$d/build.log" 2>&1 || { tail -30 "$d/build.log" >&2; fail "building the FMUs from their sources failed"; }
    echo "$h" > "$d/stamp"
}
# programs that drive the FMUs through the importer, loaded or linked
build_linked() {
    local d=$B/linked h; h=$(cat "$B/fmu/stamp")-$(cat "$HERE/tools/linked.py" "$HERE/harness/linked/drive.c" | cksum | cut -d' ' -f1)
    if [ -f "$d/stamp" ] && [ "$(cat "$d/stamp")" = "$h" ]; then return 0; fi
    rm -rf "${B:?}/linked"; mkdir -p "$d"
    /usr/bin/python3 "$HERE/tools/linked.py" "$B/fmu/src" "$HERE/harness/linked/drive.c" "$d" > "$d/build.log" 2>&1 || { tail -30 "$d/build.log" >&2; fail "building the programs that drive the FMUs failed"; }
    echo "$h" > "$d/stamp"
}
