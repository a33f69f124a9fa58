#!/bin/bash
# Builds every simulator from the committed files and /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
rc=0
for d in gov fund stake oracle fee; do
	(cd "$d" && cargo build --release --offline) || rc=1
done
exit $rc
