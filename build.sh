#!/bin/bash
# builds govc from the committed sources and prints the path of the binary
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p .build
(cd govc && flock ../.build/lock go build -o ../.build/govc . ) >&2 || exit 2
echo "$PWD/.build/govc"
