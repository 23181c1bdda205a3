#!/bin/bash
# usage: runall.sh TIER [id...]   runs the checks one after the other on /repo and prints status, time and last line
cd "$(dirname "$0")/.."
tier=$1; shift
for id in ${*:-$(seq -f 'C%02g' 1 20)}; do
	s=$SECONDS
	out=$(bash run.sh $id $tier 2>&1); rc=$?
	echo "$id rc=$rc $((SECONDS-s))s $(echo "$out" | tail -1)"
	[ $rc = 0 ] || echo "$out" | tail -5 | cut -c1-600
	echo "$out" | grep complete=false | cut -c1-120
done
