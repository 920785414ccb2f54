#!/bin/bash
# Usage: run.sh PROPERTY TIER
# Builds the analyser (offline, vendored) and runs the check of one property against /repo.
cd "$(dirname "$0")" || exit 2
V="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOFLAGS=
export VERIF_SEED="${VERIF_SEED:-1}"
mkdir -p bin evidence
( cd tool && go build -mod=vendor -o ../bin/tool.$$ . ) || exit 2
mv -f bin/tool.$$ bin/tool
[ "$1" = build ] && exit 0
exec env VERIF_DIR="$V" REPO_DIR="${REPO_DIR:-/repo}" ./bin/tool check "$1" "$2"
