#!/bin/bash
# tools/seedtest.sh [-c] [-t] ID...: tries planted bugs in scratch copies of
# /repo and /verif.  The demonstration has to pass without and fail with the
# patch; -t runs the repository's tests too, -c the property's check.
tests= checks=
while [[ $1 == -* ]]; do case $1 in -t) tests=1;; -c) checks=1;; -ct|-tc) tests=1 checks=1;; esac; shift; done
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
for id in "$@"; do
(
  s=/verif/seeded/$id
  w=$(mktemp -d /tmp/seed-XXXXXX)
  cp -a /repo "$w/repo"
  mkdir "$w/demo"; cp -a "$s"/. "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
  cd "$w/repo" || exit 1
  prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$s/meta.json")
  timeout 300 bash "$w/demo/demo.sh" >"$w/clean.log" 2>&1; a=$?
  if ! git apply "$s/patch.diff" 2>"$w/apply.log"; then echo "$id: PATCH DOES NOT APPLY"; cat "$w/apply.log"; rm -rf "$w"; exit; fi
  go build ./... >"$w/build.log" 2>&1; b=$?
  timeout 300 bash "$w/demo/demo.sh" >"$w/bad.log" 2>&1; c=$?
  msg="$id ($prop): demo clean=$a build=$b demo patched=$c"
  [[ $a != 0 ]] && tail -30 "$w/clean.log"
  [[ $c == 0 ]] && tail -5 "$w/bad.log"
  [[ $b != 0 ]] && cat "$w/build.log"
  if [[ -n $tests ]]; then
    go test -vet=off -count=1 -timeout 10m ./... >"$w/test.log" 2>&1; msg="$msg tests=$?"
    grep -E '^(---|\s+---) FAIL|^FAIL|^panic' "$w/test.log" | head -10
  fi
  if [[ -n $checks ]]; then
    mkdir "$w/verif"; (cd /verif && tar c --exclude=.git --exclude=seeded --exclude=replays . ) | tar x -C "$w/verif"
    sed -i "s#=> /repo#=> $w/repo#" "$w/verif/harness/go.mod"
    t0=$SECONDS
    (cd "$w/verif" && VERIF_SEED=${VERIF_SEED:-1} GOFLAGS= bin/check "$prop" quick >"$w/check.out" 2>"$w/check.err"); e=$?
    v=$(grep -c "^VIOLATION property=$prop" "$w/check.out")
    msg="$msg check=$e violations=$v $((SECONDS-t0))s"
    grep -B1 "^VIOLATION" "$w/check.out" | head -2 | cut -c1-300
    [[ $e == 2 ]] && tail -5 "$w/check.err"
  fi
  echo "$msg"
  rm -rf "$w"
)
done
