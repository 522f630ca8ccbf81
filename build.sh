#!/bin/bash
# Builds the analyser (offline) unless it is up to date.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/bin" "$here/evidence"
if [ -x "$here/bin/vt" ] && [ -z "$(find "$here/tool" -newer "$here/bin/vt" -name '*.go' -print -quit)" ]; then exit 0; fi
(
  . "$here/tool/env.sh"
  cd "$here/tool" && go build -trimpath -buildvcs=false -o "$here/bin/vt.$$" . && mv -f "$here/bin/vt.$$" "$here/bin/vt"
)
