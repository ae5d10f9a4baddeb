#!/bin/bash
# tools/seed_test.sh ID [checks...]: applies seeded/ID to a scratch copy of
# /repo, runs the tests, the demonstration and the checks (default: the
# property of the seed) on it.
cd "$(dirname "$0")/.." || exit 2
id=$1; shift
d=/tmp/seed-$id
rm -rf "/tmp/seed-$id"
mkdir -p "$d" && cp -a /repo "$d/repo"
prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
export TZ=Asia/Shanghai
. ./env.sh
git -C "$d/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
(cd "$d/repo" && GOFLAGS= go build ./... ) || { echo "$id: does not build"; exit 1; }
out=$(cd "$d/repo" && GOFLAGS= go test -vet=off ./... 2>&1); [ $? = 0 ] || { echo "$id: tests fail"; echo "$out" | grep -E "^(---|FAIL|\s+---)" | head; }
mkdir -p "$d/demo" && cp seeded/$id/* "$d/demo/" && rm -f "$d/demo/patch.diff" "$d/demo/meta.json"
(cd /repo && bash "$d/demo/demo.sh" >"$d/clean.log" 2>&1); c=$?
sed "s#/repo#$d/repo#g" -i "$d"/demo/*
(cd "$d/repo" && bash "$d/demo/demo.sh" >"$d/patched.log" 2>&1); p=$?
[ $c = 0 ] && [ $p != 0 ] || echo "$id: demo wrong: clean=$c patched=$p (see $d)"
[ $# = 0 ] && set -- $prop
for k; do
	t0=$(date +%s)
	VERIF_REPO=$d/repo VERIF_OUT=$d/out ./check.sh "$k" quick >"$d/check-$k.log" 2>&1; r=$?
	echo "$id $k: exit $r ($(($(date +%s)-t0)) s) $(grep -m1 -A3 VIOLATION "$d/check-$k.log" | tr '\n' ' ' | cut -c1-300)"
done
[ -n "$KEEP" ] || rm -rf "/tmp/seed-$id"
