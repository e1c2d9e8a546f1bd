#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the harness from /repo's working
# tree and decides one property. Exit 0: held; exit 1 with a VIOLATION line: not.
# check.sh --build only builds. check.sh --replay FILE runs a saved case again.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/harness/env.sh"
bin="$here/.build/pbt.$$"
mkdir -p "$here/.build"
trap 'rm -f "$bin"' EXIT
(cd "$here/harness" && go build -o "$bin" .) || { echo "check.sh: the harness does not build" >&2; exit 3; }
case "$1" in
--build) exit 0 ;;
--replay) "$bin" replay "$2"; exit $? ;;
--list) "$bin" list; exit $? ;;
esac
"$bin" run -property "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}"
exit $?
