#!/bin/bash
# Warm the build cache and test that the simulation builds; every check builds for itself as well.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d "${TMPDIR:-/tmp}/tcpxsetup.XXXXXX") || exit 2
trap 'rm -rf "$d"' EXIT
bash "$here/build.sh" "$d"
