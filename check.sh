#!/bin/bash
# check.sh PROPERTY: decides one property by static analysis of /repo's current source.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || { echo "cannot build the analyser" >&2; exit 2; }
. "$here/findings/env.sh"
exec "$here/bin/vt" -repo "${REPO:-/repo}" -verif "$here" -property "$1"
