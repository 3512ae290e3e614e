#!/bin/bash
# Usage: ./check.sh ID [quick|thorough]   (environment: VERIF_SEED, VERIF_TIER)
# Exit 0: held on everything generated. 1: VIOLATION line printed. 2: no verdict.
root=$(dirname "$(realpath "$0")")
id=${1:?usage: check.sh ID [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
"$root/build.sh" || exit 2
exec "$root/harness/target/release/vh" check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" --root "$root"
