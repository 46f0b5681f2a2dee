#!/bin/bash
# matrix.sh [id...]: applies each seeded bug in turn to a copy of /repo and runs the check of its property (or CHECK) there.
cd "$(dirname "$0")/.." || exit 3
w=$(mktemp -d /tmp/matrix.XXXXXX) && tools/copy.sh "$w" || exit 3
[ $# -gt 0 ] || set -- $(ls seeded)
for id; do
  p=$(sed -n 's/.*"property": "\(.*\)".*/\1/p' seeded/$id/meta.json)
  git -C "$w/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  for c in ${CHECK:-$p}; do
    s=$(date +%s)
    out=$(timeout 900 "$w/verif/run.sh" $c 2>&1); rc=$?
    v=$(grep -m1 "^VIOLATION property=$c " <<<"$out")
    [ $rc = 1 ] && [ -n "$v" ] && r=caught || r="MISSED rc=$rc"
    echo "$id $c $r $(($(date +%s)-s))s"
    [ -n "${SHOW:-}" ] && tail -4 <<<"$out"
  done
  git -C "$w/repo" checkout -q -- .
done
rm -rf "$w"
