#!/bin/bash
# build.sh DIR: instrument the tcpx package of /repo's working tree and build the simulation harness DIR/harness.bin.
# Nothing outside DIR (and Go's build cache) is written.
set -e
here=$(cd "$(dirname "$0")" && pwd)
dir=$1
repo=${TCPX_REPO:-/repo}
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOWORK=off GO111MODULE=on GOPROXY=off GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1 CGO_ENABLED=0
mkdir -p "$dir/tree/zharness" "$dir/tree/zsim" "$dir/instr"
# the rewriter itself (standard library only)
cp "$here"/instr/*.go "$dir/instr/"
cat > "$dir/instr/go.mod" <<M
module instr

go 1.21
M
(cd "$dir/instr" && GOFLAGS=-mod=mod go build -o "$dir/instr.bin" .)
# module files: the repository's own, with the requirement its go.mod misses
cp "$repo/go.mod" "$dir/repo.mod"
cp "$repo/go.sum" "$dir/repo.sum"
grep -q 'github.com/BurntSushi/toml' "$dir/repo.mod" || (cd "$repo" && GOFLAGS= go mod edit -require=github.com/BurntSushi/toml@v0.3.1 "$dir/repo.mod")
cp "$here"/sim/*.go "$dir/tree/zsim/"
cp "$here"/harness/*.go "$dir/tree/zharness/"
GOFLAGS= "$dir/instr.bin" -repo "$repo" -modfile "$dir/repo.mod" -out "$dir/tree" > "$dir/instr.log"
cp "$dir/repo.mod" "$dir/tree/go.mod"
cp "$dir/repo.sum" "$dir/tree/go.sum"
cd "$dir/tree"
v=$(sed -n 's/^go 1\.\([0-9]*\).*/\1/p' go.mod)
if [ -z "$v" ] || [ "$v" -lt 21 ]; then GOFLAGS= go mod edit -go=1.21; fi
GOFLAGS= go mod edit -require=github.com/anishathalye/porcupine@v1.3.1
GOFLAGS=-mod=mod go build -o "$dir/harness.bin" ./zharness
