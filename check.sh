#!/bin/bash
# check.sh ID quick|thorough   decide a property on /repo's current working tree
# check.sh replay FILE         re-run a replay file (exit 1 if the property fails again)
set -u
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=${VERIF_DIR:-$here}
tmp=$(mktemp -d /tmp/verif-check-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
id=$1
[ "$1" = replay ] && id=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)
flags=()
# the race detector comes with pointer checks that the unsafe accessors of the code base don't pass by design
[ "$id" = C15 ] && flags=(-race -gcflags=all=-d=checkptr=0)
if ! (cd "$here/harness" && go build "${flags[@]}" -o "$tmp/harness" .) >"$tmp/log" 2>&1; then
	cat "$tmp/log"
	echo "check error: the harness does not build against /repo"
	exit 2
fi
if [ "$1" != replay ] && [ "${2:-quick}" = thorough ] && [ "$id" != C15 ]; then # for the coverage-guided phase
	(cd "$here/harness" && go build -cover -covermode=atomic -coverpkg=velty.verif/harness,github.com/viant/velty/... -o "$tmp/guided" .) >"$tmp/log" 2>&1 && export VERIF_COV=$tmp/guided || cat "$tmp/log"
fi
export TMPDIR=$tmp
if [ "$1" = replay ]; then
	"$tmp/harness" replay "$2"
else
	"$tmp/harness" run "$1" "${2:-quick}"
fi
