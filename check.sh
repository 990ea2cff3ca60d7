#!/bin/bash
# check.sh ID: build the analyzer and decide one property for the source in /repo.
cd "$(dirname "$0")" || exit 2
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GO111MODULE=on GOWORK=off CGO_ENABLED=0
unset GOOS GOARCH
mkdir -p bin evidence
(cd analyzer && go build -o ../bin/analyzer .) || { echo "the analyzer does not build"; exit 2; }
[ "$1" = setup ] && exit 0
SA_VERIF=$PWD exec bin/analyzer check "$1"
