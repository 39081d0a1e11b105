# demo kit: builds a small program against /repo's sources (cwd) with the
# stand-in headers that lie beside this file, runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
CXX=$(command -v g++-12 || command -v g++)
FLAGS="-std=gnu++23 -fcoroutines -O0 -DNDEBUG -DSTD -DFMT_CONSTEVAL= -DCEREAL_SERIALIZE_FUNCTION_NAME=cereal_serialize -D_GLIBCXX_ASSERTIONS -w -pthread -include $here/shim/prelude.h -I$repo/include -I$here/shim -I$here"
# build PROGRAM.cc [sources of the repository ...]
build() {
  local main=$1; shift
  { echo "$here/$main"; for s in "$@"; do find "$repo/$s" -name '*.cc'; done; } > "$work/list"
  nl=0
  while read -r f; do nl=$((nl+1)); echo "$CXX $FLAGS -c '$f' -o '$work/o$nl.o'"; done < "$work/list" > "$work/cmds"
  xargs -d '\n' -P 8 -I{} sh -c '{}' < "$work/cmds" || { echo "build failed"; exit 77; }
  $CXX "$work"/o*.o -o "$work/demo" -lpugixml -lfmt -ldate-tz -lpthread || { echo "link failed"; exit 77; }
}
run() { (cd "$work" && MC_SCRATCH="$work" timeout 100 ./demo "$@"); }
