#!/bin/bash
# warms the Go build cache used by the checks
set -u
root=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
work=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 1
trap 'chmod -R u+w "$work" 2>/dev/null; rm -rf "$work"' EXIT
. "$root/lib.sh"
build_all
