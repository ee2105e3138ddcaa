#!/bin/sh
# usage: check.sh <property id>; builds the checker from the committed sources and runs one rule on /repo
cd "$(dirname "$0")" || exit 1
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local
if ! (cd checker && go build -o ../bin/ichk . ) ; then
	echo "the checker does not build"; exit 3
fi
exec ./bin/ichk "$@"
