#!/bin/bash
# runseeds.sh [all] ID...: the check of the planted bug's property (or every check) against a scratch copy with the bug
. /opt/vp/env.sh
all=; if [ "$1" = all ]; then all=1; shift; fi
ids="$*"; [ -z "$ids" ] && ids=$(ls /verif/seeded)
one() {
  id=$1; w=$(mktemp -d /tmp/rs.XXXXXX)
  cp -a /repo "$w/r"; git -C "$w/r" apply "/verif/seeded/$id/patch.diff" || echo "$id: patch"
  props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  [ -n "$2" ] && props=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")
  mkdir -p "$w/v"; for f in contracts replay bin tools known_findings.txt; do cp -a /verif/$f "$w/v/$f"; done; mkdir "$w/v/evidence"
  for p in $props; do
    s=$(date +%s)
    GOV_REPO="$w/r" GOV_VERIF="$w/v" timeout 840 /verif/bin/gov check $p > "$w/out" 2>&1; rc=$?
    echo "$id $p rc=$rc $(grep '^VIOLATION' "$w/out" | sed "s#$w##") $(( $(date +%s)-s ))s"
  done
  rm -rf "$w"
}
export -f one
printf '%s\n' $ids | xargs -P4 -I{} bash -c "one {} $all"
