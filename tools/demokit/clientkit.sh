# demo kit: bundles the web client (cwd/web/client) with the stand-ins that lie
# beside this file and runs demo.mjs on it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
node "$here/build.mjs" "$repo" "$work/client.js" || { echo "build failed"; exit 77; }
cd "$work" && MC_CLIENT="$work/client.js" timeout 100 node "$here/demo.mjs"
