#!/bin/bash
# Builds the engine (a no-op when it is current).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/bin"
if [ -x "$here/bin/engine" ] && [ -z "$(find "$here/engine" -newer "$here/bin/engine" -name '*.go' -print -quit)" ]; then exit 0; fi
cd "$here/engine" && go build -o "$here/bin/engine.tmp" . && mv "$here/bin/engine.tmp" "$here/bin/engine"
