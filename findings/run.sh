#!/bin/sh
# Demonstrates the defects repaired by the fix: commits. usage: run.sh [tree] (default /repo).
# Record only: no registered check uses this.
here=$(cd "$(dirname "$0")" && pwd); tree=${1:-/repo}
. "$here/env.sh"
o=$(mktemp); cat > "$o" <<J
{"Replace":{
"$tree/shlib/shcrypto/zz_verif_test.go":"$here/shcrypto_verif_test.go",
"$tree/shuttermint/keyper/observe/zz_verif_test.go":"$here/observe_verif_test.go",
"$tree/shuttermint/keyper/fx/zz_verif_test.go":"$here/fx_verif_test.go",
"$tree/shuttermint/keyper/zz_verif_test.go":"$here/keyper_verif_test.go",
"$tree/shuttermint/keyper/shutterevents/zz_verif_test.go":"$here/shutterevents_verif_test.go",
"$tree/shuttermint/contract/zz_verif_test.go":"$here/contract_verif_test.go",
"$tree/shuttermint/app/zz_verif_test.go":"$here/app_verif_test.go"}}
J
(cd "$tree/shlib" && go test -vet=off -overlay "$o" -run Finding ./shcrypto)
(cd "$tree/shuttermint" && go test -vet=off -overlay "$o" -run Finding ./keyper ./keyper/observe ./keyper/fx ./keyper/shutterevents ./app ./contract)
rm -f "$o"
