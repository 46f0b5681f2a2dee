#!/bin/bash
# quiet.sh DIFF [Cxx...]: applies a behaviour-preserving change to a copy of /repo and runs the checks there; every check must exit 0.
cd "$(dirname "$0")/.." || exit 3
w=$(mktemp -d /tmp/quiet.XXXXXX) && tools/copy.sh "$w" || exit 3
d=$(readlink -f "$1"); shift
[ $# -gt 0 ] || set -- $(seq -f 'C%02g' 1 60 | grep -f <(sed -n 's/.*"property": "\(C..\)".*/\1/p' MANIFEST.json))
git -C "$w/repo" apply "$d" || exit 3
bad=
for c; do
  s=$(date +%s)
  out=$(timeout 900 "$w/verif/run.sh" $c 2>&1); rc=$?
  [ $rc = 0 ] || { bad="$bad $c"; echo "$c rc=$rc $(($(date +%s)-s))s"; tail -5 <<<"$out"; }
  t=$(($(date +%s)-s)); [ $t -gt 120 ] && echo "$c slow: ${t}s"
done
rm -rf "$w"
echo "$(basename "$d"): ${bad:-all quiet}"
