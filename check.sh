#!/bin/bash
# check.sh setup | check PROPERTY quick|thorough | replay FILE | build DIR
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$here/tool" && go build "$GC" -buildvcs=false -o "$bin/vt" .) || { echo "ERROR the driver can't be built"; exit 2; }
[ "$1" = setup ] && exit 0
"$bin/vt" "$@" &
pid=$!
trap 'kill $pid 2>/dev/null; wait $pid; rm -rf "$bin"; exit 2' TERM INT HUP
wait $pid
rc=$?
exit $rc
