#!/bin/bash
# ./check.sh ID quick|thorough    decide the property on /repo's working tree
# ./check.sh replay FILE          execute the case of a replay file
# For development: VERIF_REPO is another tree to check, VERIF_OUT where
# evidence, replays and build output go then.
cd "$(dirname "$0")" || exit 2
export VERIF_SRC=$PWD
export VERIF_REPO=${VERIF_REPO:-/repo}
export VERIF_ROOT=${VERIF_OUT:-$PWD}
. ./env.sh
BIN=$VERIF_ROOT/mc/bin
mkdir -p "$BIN" "$VERIF_ROOT/work" "$VERIF_ROOT/evidence" "$VERIF_ROOT/replays"
if [ "$VERIF_REPO" != /repo ]; then
	sed "s#=> /repo#=> $VERIF_REPO#" mc/go.mod >"$VERIF_ROOT/work/alt.mod"
	: >"$VERIF_ROOT/work/alt.sum"
	export GOFLAGS="-mod=mod -modfile=$VERIF_ROOT/work/alt.mod"
fi
(cd mc && go build -o "$BIN/mc" .) || exit 2
if [ "$1" = replay ]; then
	exec "$BIN/mc" replay "$2"
fi
exec "$BIN/mc" run "$1" "${2:-quick}"
