#!/bin/bash
# check.sh DOMAIN PROPERTY quick|thorough   decide one property on /repo's working tree
# check.sh replay FILE                      run a replay file again
cd "$(dirname "$0")" || exit 2
. ./env.sh
build() {
	mkdir -p target
	local log=target/build-$1.log
	if ! (flock 9; cd "$1" && cargo build --release --offline > "../$log" 2>&1) 9> target/.build-lock; then
		echo "the simulator $1 does not build:"
		grep -E "^error" -A6 "$log" | head -60
		return 1
	fi
}
if [ "$1" = replay ]; then
	dom=$(python3 -c 'import json,sys;print({"governance":"gov","funding":"fund","staking":"stake"}.get(json.load(open(sys.argv[1]))["domain"],json.load(open(sys.argv[1]))["domain"]))' "$2")
	build "$dom" || exit 2
	exec "target/release/sim-$dom" --replay "$2" --known known-findings.txt
fi
dom=$1 prop=$2 tier=${3:-quick}
build "$dom" || exit 2
case $tier in thorough) secs=${VERIF_SECS:-1500} ;; *) secs=${VERIF_SECS:-20} ;; esac
mkdir -p evidence replays
exec "target/release/sim-$dom" --property "$prop" --tier "$tier" --secs "$secs" --known known-findings.txt \
	--evidence "evidence/$prop.json" --replay-dir /verif/replays
