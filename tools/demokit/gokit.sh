# demo kit: builds a small Go program with the sources of the OSM generator
# (cwd/tools/generate-osm) and the stand-ins that lie beside this file
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
cp -r "$repo/tools/generate-osm" "$work/tool"
find "$work/tool" -name '*_test.go' -delete
rm -f "$work/tool/go.sum"
cp -r "$here/standin" "$work/standin"
mkdir "$work/demo"
cp "$here/demo.go" "$work/demo/main.go"
req='
require github.com/pkg/errors v0.9.1
require github.com/urfave/cli/v2 v2.24.4
require golang.org/x/net v0.8.0
replace github.com/pkg/errors => ../standin/errors
replace github.com/urfave/cli/v2 => ../standin/cli
replace golang.org/x/net => ../standin/net'
printf 'module transform-osm\n\ngo 1.19\n%s\n' "$req" > "$work/tool/go.mod"
printf 'module demo\n\ngo 1.21\n\nrequire transform-osm v0.0.0\nreplace transform-osm => ../tool\n%s\n' "$req" > "$work/demo/go.mod"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GOENV=off CGO_ENABLED=0 GOCACHE="$work/cache" HOME="$work"
(cd "$work/demo" && go build -o "$work/run" .) || { echo "build failed"; exit 77; }
mkdir "$work/scratch"
cd "$work/scratch" && timeout 100 "$work/run"
