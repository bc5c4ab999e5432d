#!/bin/sh
# check.sh <property>: decide one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 1
if [ ! -x .bin/vc ]; then
	sh setup.sh >/dev/null 2>&1
fi
if ! [ -x .bin/vc ]; then
	mkdir -p evidence
	echo "analyser could not be built" >"evidence/$1.replay.txt"
	echo "VIOLATION property=$1 replay=$PWD/evidence/$1.replay.txt"
	exit 1
fi
.bin/vc -verif "$PWD" -prop "$1"
s=$?
if [ $s -ne 0 ] && [ $s -ne 1 ]; then
	echo "VIOLATION property=$1 replay=$PWD/evidence/$1.replay.txt"
	exit 1
fi
exit $s
