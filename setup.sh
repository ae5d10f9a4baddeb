#!/bin/bash
# Builds the framework from the committed files, offline.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p mc/bin work evidence replays
(cd mc && go build -o bin/mc .) || exit 2
