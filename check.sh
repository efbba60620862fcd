#!/bin/bash
# check.sh PROPERTY quick|thorough
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_TIER=${2:-quick} VERIF_SEED=${VERIF_SEED:-1} RUST_BACKTRACE=0
bash "$here/build.sh" harness || exit 2
case $1 in
    P0[1-9]|P10|P22) ;;
    *) bash "$here/build.sh" brack || exit 2 ;;
esac
exec "$here/target/harness/debug/brackmc" check "$1"
