#!/bin/bash
# trybugs.sh [ID...]: run the check of each planted bug's property against a scratch copy with the bug applied.
here=$(cd "$(dirname "$0")/.." && pwd)
[ $# -gt 0 ] || set -- $(ls "$here/seeded")
for id in "$@"; do
  d=$here/seeded/$id
  tmp=$(mktemp -d /tmp/trybug.XXXXXX)
  cp -a /repo "$tmp/repo"
  prop=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  if git -C "$tmp/repo" apply "$d/patch.diff"; then
    t0=$SECONDS
    SIM_REPO=$tmp/repo bash "$here/check.sh" "$prop" "${TIER:-quick}" > "$tmp/out" 2>&1
    rc=$?
    echo "$id $prop rc=$rc $((SECONDS-t0))s $(grep -m1 -A1 VIOLATION "$tmp/out" | cut -c1-300 | tr '\n' ' ')"
    [ $rc = 2 ] && tail -5 "$tmp/out"
  else
    echo "$id: patch does not apply"
  fi
  rm -rf -- "$tmp"
done
