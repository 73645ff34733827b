#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough|replay FILE]
# Exit 0: held. Exit 1 and a VIOLATION line: broken. Anything else: the check failed.
cd "$(dirname "$0")" || exit 2
here=$(pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
repo=${VERIF_REPO:-/repo}
. ./env.sh || exit 2
case $prop in
C0[1-9])
	mkdir -p "$here/.work/bin" || exit 2
	(cd gosim && go build -o "$here/.work/bin/runner" ./runner) || exit 2
	work=$(mktemp -d "$here/.work/run.XXXXXX") || exit 2
	trap 'rm -rf "$work"' EXIT
	if [ "$tier" = replay ]; then
		"$here/.work/bin/runner" -prop "$prop" -repo "$repo" -gosim "$here/gosim" -work "$work" -out "$here" -replay "$3"
		exit $?
	fi
	"$here/.work/bin/runner" -prop "$prop" -tier "$tier" -seed "$seed" -repo "$repo" -gosim "$here/gosim" -work "$work" -out "$here" -known "$here/known_findings.jsonl"
	exit $?
	;;
C1[1-9] | C2[45])
	mkdir -p "$here/.work/bin" || exit 2
	(cd gosim && go build -o "$here/.work/bin/rt" ./rt) || exit 2
	work=$(mktemp -d "$here/.work/run.XXXXXX") || exit 2
	trap 'rm -rf "$work"' EXIT
	if [ "$tier" = replay ]; then
		"$here/.work/bin/rt" -prop "$prop" -repo "$repo" -rt "$here/rt" -work "$work" -out "$here" -replay "$3"
		exit $?
	fi
	"$here/.work/bin/rt" -prop "$prop" -tier "$tier" -seed "$seed" -repo "$repo" -rt "$here/rt" -work "$work" -out "$here" -known "$here/known_findings.jsonl"
	exit $?
	;;
*)
	echo "no check for $prop" >&2
	exit 2
	;;
esac
