#!/bin/bash
# revert.sh PROP COMMIT...: the check of PROP on a scratch copy of /repo with the commit reverted
. /opt/vp/env.sh
p=$1; shift
for c in "$@"; do
  w=$(mktemp -d /tmp/rv.XXXXXX); cp -a /repo "$w/r"
  git -C "$w/r" -c user.email=a@b -c user.name=x revert --no-edit --no-commit $c >/dev/null 2>&1 || { git -C "$w/r" show $c | git -C "$w/r" apply -R --3way 2>&1 | head -3; }
  mkdir -p "$w/v"; for f in contracts replay bin tools known_findings.txt; do cp -a /verif/$f "$w/v/$f"; done; mkdir "$w/v/evidence"
  GOV_REPO="$w/r" GOV_VERIF="$w/v" timeout 840 /verif/bin/gov check $p > "$w/out" 2>&1; rc=$?
  echo "$c $p rc=$rc $(grep '^VIOLATION' $w/out)"; grep -E "failed obl" $w/out | cut -c1-200 | head -6; grep -A1 "failing input" $w/out | cut -c1-300 | head -4
  rm -rf "$w"
done
