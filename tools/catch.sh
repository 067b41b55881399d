#!/bin/bash
# which checks catch the planted bugs: catch.sh [id..]; in scratch copies, own property first
cd "$(dirname "$0")/.." || exit 2
ids=("$@"); [ $# -eq 0 ] && ids=($(ls seeded))
one() {
  id=$1; c=$(mktemp -d /tmp/catch-XXXXXX); cp -a /repo/. "$c"
  git -C "$c" apply "$PWD/seeded/$id/patch.diff" || { echo "$id PATCH FAILED"; rm -rf "$c"; return; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  for q in $p $EXTRA; do
    t0=$SECONDS
    out=$(KMV_REPO=$c KMV_EVIDENCE=$c/.ev timeout 900 bash check.sh $q 2>&1); rc=$?
    echo "$id $q rc=$rc $((SECONDS-t0))s $(echo "$out" | grep -v VIOLATION | head -1 | cut -c1-150)"
  done
  rm -rf "$c"
}
export -f one
printf '%s\n' "${ids[@]}" | xargs -P ${JOBS:-2} -I{} bash -c 'one {}'
