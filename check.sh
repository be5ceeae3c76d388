#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the simulation from /repo's working tree and search for violations.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
t0=$(date +%s%3N)
case $tier in
  thorough) budget=${VERIF_BUDGET:-600s} ;;
  *) tier=quick; budget=${VERIF_BUDGET:-30s} ;;
esac
scratch=$(mktemp -d "${TMPDIR:-/tmp}/tcpxcheck.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
if ! bash "$here/build.sh" "$scratch/b" > "$scratch/build.log" 2>&1; then
  echo "check.sh: building the simulation failed" >&2
  tail -40 "$scratch/build.log" >&2
  exit 2
fi
mkdir -p "$here/evidence"
TMPDIR="$scratch" "$scratch/b/harness.bin" check -prop "$prop" -tier "$tier" -seed "$seed" -out "$here/evidence" \
  -known "$here/known-findings.txt" -budget "$budget" -t0 "$t0"
exit $?
