#!/bin/bash
# Checks that the checker builds offline (every check builds it again).
set -e
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/checker"
env -u GOFLAGS GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o /dev/null .
