#!/bin/bash
# check.sh ID [quick|thorough]: decides property ID for /repo's working tree.
# check.sh replay FILE: carries out a recorded violation again.
# Exit 0: held on everything explored. 1: VIOLATION line printed. Other: the check could not be carried out.
cd "$(dirname "$0")" || exit 3
WHAT=$1
TIER=${2:-${VERIF_TIER:-quick}}
B=build/$WHAT.$$
trap 'rm -rf "$PWD/$B"' EXIT
if ! ./build.sh "$B" >&2; then
	echo "check.sh: /repo does not build with the simulator" >&2
	exit 3
fi
if [ "$WHAT" = replay ]; then
	"$B/sim" -instr "$B/ov/instr.json" -replay "$2"
	exit
fi
"$B/sim" -prop "$WHAT" -tier "$TIER" -seed "${VERIF_SEED:-1}" -dir . -instr "$B/ov/instr.json"
