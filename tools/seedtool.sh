#!/bin/bash
# seedtool.sh new ID      : saves the diff of /tmp/sw (a scratch copy of /repo) as seeded/ID/patch.diff
# seedtool.sh try ID      : demo on clean + patched scratch copies, package tests on the patched one
set -u
. /opt/vp/env.sh
V=/verif/seeded
case $1 in
start) [ -d /tmp/sw ] || cp -a /repo /tmp/sw; cd /tmp/sw && git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD;;
new) mkdir -p $V/$2; cd /tmp/sw && gofmt -l $(git diff --name-only) ; git diff > $V/$2/patch.diff; cat $V/$2/patch.diff | head -60;;
try) cd /tmp/sw && git checkout -q -- . && git clean -fdq
  echo "clean demo:"; bash $V/$2/demo.sh > /tmp/demo.$2.clean 2>&1; echo rc=$?
  git apply $V/$2/patch.diff || exit 3
  echo "patched demo:"; bash $V/$2/demo.sh > /tmp/demo.$2.patched 2>&1; echo rc=$?; tail -15 /tmp/demo.$2.patched
  go build ./... || echo BUILD FAIL
  pk=$(git diff --name-only | xargs -n1 dirname | sort -u | sed 's/^/.\//')
  go test -vet=off -count=1 $(go list ./... | grep -v -e /integration-tests/ -e lock_manager$ -e pkg/clients$) 2>&1 | grep '^--- FAIL\|^FAIL\|panic' | tail -15
  git checkout -q -- . ;;
esac
