#!/bin/bash
# Builds the explorer once, so that the checks find a warm build cache.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
. "$here/env.sh"
work=$(mktemp -d) || exit 2
trap 'rm -rf -- "$work"' EXIT
cd "$here/harness" || exit 2
go build -o "$work/h" . || exit 1
mkdir "$work/overlay"
"$work/h" -instrument "$work/overlay" && go build -overlay "$work/overlay/overlay.json" -tags sched -o "$work/hs" .
go build -race -o "$work/hr" .
exit 0
