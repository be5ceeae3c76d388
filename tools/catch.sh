#!/bin/bash
# catch.sh BUDGET ID...: run the bug's property check against a scratch copy with the bug applied.
b=$1; shift
for id in "$@"; do
  w=$(mktemp -d /tmp/catch.XXXXXX)
  cp -a /repo "$w/r"; git -C "$w/r" apply /verif/seeded/$id/patch.diff
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  if TCPX_REPO="$w/r" bash /verif/build.sh "$w/b" > "$w/log" 2>&1; then
    t0=$(date +%s)
    o=$(timeout 600 "$w/b/harness.bin" check -prop $p -out "$w/ev" -budget $b 2>&1); rc=$?
    echo "$id $p rc=$rc $(( $(date +%s)-t0 ))s $(echo "$o" | grep -a -m1 -i viol)"
    f=$(ls "$w"/ev/replays/*.json 2>/dev/null | head -1)
    [ -n "$f" ] && { mkdir -p /tmp/rp; cp "$f" /tmp/rp/$id.json; python3 -c "import json;print('    ',json.load(open('$f'))['message'][:300])"; }
  else echo "$id BUILD FAILED"; tail -5 "$w/log"; fi
  rm -rf "$w"
done
