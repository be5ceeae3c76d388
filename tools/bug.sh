#!/bin/bash
# bug.sh ID [nosuite]: confirm a planted bug in scratch copies: applies, builds, suite passes, demo 0 without / non-0 with it.
id=$1
s=/verif/seeded/$id
w=$(mktemp -d /tmp/sb.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/clean"; cp -a /repo "$w/bug"
git -C "$w/bug" apply "$s/patch.diff" || { echo "$id: does not apply"; exit 1; }
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1 GO111MODULE=on GOPROXY=off
cp /repo/go.mod "$w/m.mod"; cp /repo/go.sum "$w/m.sum"
(cd /repo && GOFLAGS= go mod edit -require=github.com/BurntSushi/toml@v0.3.1 "$w/m.mod")
export GOFLAGS="-mod=mod -modfile=$w/m.mod"
(cd "$w/bug" && go build ./...) || { echo "$id: does not build"; exit 1; }
mkdir "$w/demo"; cp "$s"/demo* "$w/demo/"
for k in 1 2 3; do
  (cd "$w/clean" && env -u GOFLAGS unshare -Urn bash -c 'ip link set lo up; bash "$0"' "$w/demo/demo.sh" > "$w/c.log" 2>&1); a=$?
  (cd "$w/bug" && env -u GOFLAGS unshare -Urn bash -c 'ip link set lo up; bash "$0"' "$w/demo/demo.sh" > "$w/b.log" 2>&1); b=$?
  echo "$id: demo clean=$a bug=$b"
  if [ $a != 0 ]; then tail -15 "$w/c.log"; fi
  if [ $k = 1 ]; then grep -a -E 'zz_demo|DEMO|panic' "$w/b.log" | head -4; fi
done
if [ "$2" != nosuite ]; then
  (cd "$w/bug" && unshare -Urn bash -c 'ip link set lo up; go test -json -vet=off -count=1 -timeout 6m ./...' > "$w/go.json" 2>&1)
  python3 - "$w/go.json" "$id" <<'P'
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'/'+d['Test'])
print(sys.argv[2],'suite: failed', sorted(st-ok))
P
fi
