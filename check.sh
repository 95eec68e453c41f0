#!/bin/bash
# usage: check.sh <property>   (VERIF_TIER=thorough for the deep tier)
# Builds the analyzer from this directory and decides the property on the current tree of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d /tmp/pkvcheck.XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/analyzer" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o "$tmp/pkvcheck" .) || exit 2
VERIF_DIR="$here" REPO_DIR="${REPO_DIR:-/repo}" "$tmp/pkvcheck" check "$1"
rc=$?
exit $rc
