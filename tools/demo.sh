#!/bin/bash
# Runs demo_test.go (beside this script) against the tree in the current directory.
# Exit 0: behaves as it should; non-zero: misbehaves.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
pkg="$(cat "$here/pkg")"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
cp "$repo/go.mod" "$tmp/demo.mod" || exit 2
sort -u "$repo/go.sum" /opt/vp/plainkv.extra.sum > "$tmp/demo.sum" || exit 2
export GOFLAGS="-mod=mod -modfile=$tmp/demo.mod"
{
  echo '{"Replace": {'
  [ -f "$here/chk.go" ] && echo "\"$repo/bptree/zz_chk_demo_test.go\": \"$here/chk.go\","
  echo "\"$repo/bptree/bptree_test.go\": \"\","
  echo "\"$repo/hashmap/hashmap_test.go\": \"\","
  echo "\"$repo/$pkg/zz_demo_test.go\": \"$here/demo_test.go\""
  echo '}}'
} > "$tmp/overlay.json"
export DEMO_DIR="$tmp"
cd "$repo" || exit 2
timeout 280 go test -overlay "$tmp/overlay.json" -vet=off -count=1 -run '^TestDemo' "./$pkg"
