#!/bin/bash
# usage: quiet.sh TREE [id...]   runs the quick checks on a copy of the repository (they have to stay quiet)
cd "$(dirname "$0")/.."
tree=$1; shift
for id in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C16 C17 C18 C19 C20 C15}; do
	s=$SECONDS
	out=$(VERIF_REPO=$tree nice -n 5 timeout 900 bash run.sh $id quick 2>&1); rc=$?
	echo "$id rc=$rc $((SECONDS-s))s"
	[ $rc = 0 ] || echo "$out" | grep -v complete=true | tail -5 | cut -c1-600
done
