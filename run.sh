#!/bin/bash
# usage: run.sh <property> quick|thorough|replay [file]
# Builds the checker against a scratch copy of /repo's working tree and runs one check.
set -u
root=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
id=$1; tier=$2; shift 2
[ $# -gt 0 ] && [ -e "$root/$1" ] && set -- "$root/$1"
work=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 3
trap 'chmod -R u+w "$work" 2>/dev/null; rm -rf "$work"' EXIT
. "$root/lib.sh"
build_all "$id" || { echo "check could not be built" >&2; exit 3; }
export VERIF_ROOT=$root VERIF_WORK=$work
cd "$work/run" || exit 3
"$work/check" "$id" "$tier" "$@" 2>"$work/stderr"
rc=$?
tail -c 4000 "$work/stderr" >&2
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	# an unrecoverable crash (fatal error: ...) of the code under test is a violation
	if grep -q '^fatal error:\|^runtime: goroutine stack exceeds' "$work/stderr" && grep -q 'since/radolan' "$work/stderr"; then
		mkdir -p "$root/replays"
		tail -c 20000 "$work/stderr" > "$root/replays/$id-crash.txt"
		echo "VIOLATION property=$id replay=$root/replays/$id-crash.txt"
		exit 1
	fi
fi
exit $rc
