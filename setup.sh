#!/bin/bash
# Warms the Go build cache; the checks build everything they run themselves.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
(cd "$here/mon" && go vet . && go build -o /dev/null .)
